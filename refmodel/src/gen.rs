//! Generators: configurations, states, operations and blocks. Choices come from a recorded source, and 0 is
//! always the simplest one, so counterexamples shrink to plain states.
use crate::{bls, cfg::*, spec::*, ssz::*, types::*};
use pbt::Src;
use std::collections::BTreeSet;

/// one configuration in this many has the mainnet preset
pub const MAINNET: u64 = 400;
/// one state in this many has hundreds or thousands of validators
pub const LARGE: u64 = 100;
/// A configuration of the minimal preset, rarely of the mainnet one; sometimes with run-time values other than the
/// published ones.
pub fn cfg(src: &mut Src) -> Cfg {
    cfg_odds(src, MAINNET)
}
/// mainnet once in `n`
pub fn cfg_odds(src: &mut Src, n: u64) -> Cfg {
    let p = if src.below(n) == n - 1 { Preset::Mainnet } else { Preset::Minimal };
    cfg_of(src, p)
}
pub fn cfg_of(src: &mut Src, p: Preset) -> Cfg {
    let mut c = match p {
        Preset::Minimal => Cfg::minimal(),
        Preset::Mainnet => Cfg::mainnet(),
    };
    if src.chance(1, 3) {
        c.CHURN_LIMIT_QUOTIENT = *src.pick(&[32, 1, 2, 5, 16, 64]);
        c.MIN_PER_EPOCH_CHURN_LIMIT = src.range(1, 6);
        c.MAX_PER_EPOCH_ACTIVATION_CHURN_LIMIT = src.range(1, 8);
        c.SHARD_COMMITTEE_PERIOD = *src.pick(&[64, 0, 1, 2, 7]);
        c.MIN_VALIDATOR_WITHDRAWABILITY_DELAY = *src.pick(&[256, 1, 2, 30]);
        c.EJECTION_BALANCE = src.range(0, 31) * GWEI;
        c.INACTIVITY_SCORE_BIAS = src.range(1, 9);
        c.INACTIVITY_SCORE_RECOVERY_RATE = src.range(1, 20);
        c.MIN_PER_EPOCH_CHURN_LIMIT_ELECTRA = src.range(1, 200) * GWEI + src.below(3);
        c.MAX_PER_EPOCH_ACTIVATION_EXIT_CHURN_LIMIT = src.range(1, 300) * GWEI + src.below(3);
        c.SECONDS_PER_SLOT = src.range(1, 20);
    }
    if src.chance(1, 3) {
        // the minimal preset gives several of these the same value
        let k = &mut c.k;
        k.HYSTERESIS_QUOTIENT = *src.pick(&[4, 2, 5, 8]);
        k.HYSTERESIS_DOWNWARD_MULTIPLIER = src.range(1, 3);
        k.HYSTERESIS_UPWARD_MULTIPLIER = src.range(1, 9);
        k.MIN_ATTESTATION_INCLUSION_DELAY = src.range(1, 3);
        k.MIN_SEED_LOOKAHEAD = src.range(1, 3);
        k.MAX_SEED_LOOKAHEAD = src.range(1, 6);
        k.MIN_EPOCHS_TO_INACTIVITY_PENALTY = src.range(1, 6);
        k.BASE_REWARD_FACTOR = src.range(1, 128);
        k.WHISTLEBLOWER_REWARD_QUOTIENT = src.range(1, 600);
        k.PROPOSER_REWARD_QUOTIENT = src.range(1, 12);
        k.INACTIVITY_PENALTY_QUOTIENT = 1 << src.range(8, 26);
        k.INACTIVITY_PENALTY_QUOTIENT_ALTAIR = 3 << src.range(8, 24);
        k.INACTIVITY_PENALTY_QUOTIENT_BELLATRIX = 5 << src.range(8, 24);
        k.MIN_SLASHING_PENALTY_QUOTIENT = src.range(1, 130);
        k.MIN_SLASHING_PENALTY_QUOTIENT_ALTAIR = src.range(1, 130);
        k.MIN_SLASHING_PENALTY_QUOTIENT_BELLATRIX = src.range(1, 130);
        k.MIN_SLASHING_PENALTY_QUOTIENT_ELECTRA = src.range(1, 5000);
        k.WHISTLEBLOWER_REWARD_QUOTIENT_ELECTRA = src.range(1, 5000);
        k.PROPORTIONAL_SLASHING_MULTIPLIER = src.range(1, 4);
        k.PROPORTIONAL_SLASHING_MULTIPLIER_ALTAIR = src.range(1, 4);
        k.PROPORTIONAL_SLASHING_MULTIPLIER_BELLATRIX = src.range(1, 4);
        k.EPOCHS_PER_SYNC_COMMITTEE_PERIOD = src.range(2, 10);
        k.MAX_VALIDATORS_PER_WITHDRAWALS_SWEEP = src.range(1, 40);
        k.MAX_BLOBS_PER_BLOCK = src.range(1, 8);
        k.MAX_PENDING_PARTIALS_PER_WITHDRAWALS_SWEEP = src.range(1, 3);
        k.SHUFFLE_ROUND_COUNT = src.range(1, 12);
    }
    if src.chance(1, 4) {
        // two values the published configurations never separate
        for v in c.FORK_VERSIONS.iter_mut() {
            *v = src.arr();
        }
        c.FORK_VERSIONS[0][0] ^= 0x55;
    }
    c
}

#[derive(Clone, Copy)]
pub struct Shape {
    /// offset of the slot in its epoch (beyond it: the last one); None for any
    pub offset: Option<u64>,
    pub lo: u64,
    pub hi: u64,
    pub small_epoch: bool,
    /// no epoch of it will be processed
    pub still: bool,
}
pub const ANY: Shape = Shape { offset: None, lo: 8, hi: 140, small_epoch: false, still: false };
pub const OPS: Shape = Shape { still: true, ..ANY };
pub const EPOCH_END: Shape = Shape { offset: Some(u64::MAX), lo: 8, hi: 140, small_epoch: false, still: false };

pub fn epoch(src: &mut Src, small: bool) -> u64 {
    match src.weighted(&[4, 3, 3, 2, if small { 0 } else { 2 }, if small { 0 } else { 1 }]) {
        0 => src.range(2, 10),
        1 => src.below(3),
        2 => {
            let k = src.range(1, 20);
            let d = src.below(3);
            k * 8 + d - 2 + 1
        }
        3 => src.range(60, 300),
        4 => src.range(300, 5000),
        _ => src.range(5000, 1 << 29),
    }
}

pub const ADDRS: usize = 4;
pub fn addr(i: usize) -> B20 {
    let mut a = [0x11u8; 20];
    a[19] = i as u8;
    a[0] = 0xa0 + i as u8;
    a
}
/// hash of the BLS credentials of a key
pub fn bls_creds(p: &B48) -> B32 {
    let mut h = sha(&[p]);
    h[0] = 0;
    h
}
pub fn eth1_creds(prefix: u8, a: &B20) -> B32 {
    let mut c = [0u8; 32];
    c[0] = prefix;
    c[12..].copy_from_slice(a);
    c
}
pub fn creds(src: &mut Src, f: Fork, p: &B48) -> B32 {
    let late = if f >= Electra { 3 } else { 1 };
    match src.weighted(&[3, 5, late, 1, 1]) {
        0 => bls_creds(p),
        1 => eth1_creds(1, &addr(src.idx(ADDRS))),
        2 => eth1_creds(2, &addr(src.idx(ADDRS))),
        3 => {
            let mut c: B32 = src.arr();
            c[0] = src.below(4) as u8;
            c
        }
        _ => {
            // an address with non-zero padding, or a hash of another key
            let mut c = bls_creds(p);
            let i = src.range(1, 31) as usize;
            c[i] ^= 1;
            c
        }
    }
}
pub fn near(src: &mut Src, e: u64) -> u64 {
    match src.weighted(&[3, 2, 2]) {
        0 => (e + src.below(4)).saturating_sub(1),
        1 => (e + src.below(12)).saturating_sub(6),
        _ => src.range(0, e + 1),
    }
}

pub fn validator(src: &mut Src, sp: &Spec, e: u64, fin: u64, i: u64) -> (Validator, u64) {
    let k = &sp.c.k;
    let inc = k.EFFECTIVE_BALANCE_INCREMENT;
    let delay = sp.c.MIN_VALIDATOR_WITHDRAWABILITY_DELAY;
    let pubkey = bls::pk(i);
    let cr = creds(src, sp.f, &pubkey);
    let mut v = Validator {
        pubkey,
        withdrawal_credentials: cr,
        effective_balance: k.MAX_EFFECTIVE_BALANCE,
        slashed: false,
        activation_eligibility_epoch: 0,
        activation_epoch: 0,
        exit_epoch: FAR_FUTURE,
        withdrawable_epoch: FAR_FUTURE,
    };
    let status = src.weighted(&[24, 3, 3, 2, 3, 4, 4, 2, 2]);
    v.effective_balance = match src.weighted(&[6, 3, 1, 1, if sp.f >= Electra { 4 } else { 0 }]) {
        0 => k.MAX_EFFECTIVE_BALANCE,
        1 => src.range(16, 32) * inc,
        2 => src.range(0, 17) * inc,
        3 => sp.c.EJECTION_BALANCE + src.below(3) * inc - inc.min(sp.c.EJECTION_BALANCE),
        _ => {
            if cr[0] == 2 || src.chance(1, 6) {
                *src.pick(&[33, 64, 100, 2048, 2047, 1000]) * inc
            } else {
                32 * inc
            }
        }
    };
    let set_act = |src: &mut Src, v: &mut Validator| {
        v.activation_epoch = match src.weighted(&[3, 3, 2]) {
            0 => 0,
            1 => src.range(0, e),
            _ => e.saturating_sub(sp.c.SHARD_COMMITTEE_PERIOD + src.below(4)).saturating_add(src.below(3)).min(e),
        };
        v.activation_eligibility_epoch = v.activation_epoch.saturating_sub(src.below(6));
    };
    match status {
        0 => set_act(src, &mut v),
        1 => {
            v.activation_eligibility_epoch = FAR_FUTURE;
            v.activation_epoch = FAR_FUTURE;
        }
        2 => {
            v.activation_eligibility_epoch = near(src, fin);
            v.activation_epoch = FAR_FUTURE;
        }
        3 => {
            v.activation_epoch = e + 1 + src.below(5);
            v.activation_eligibility_epoch = e.saturating_sub(src.below(5));
        }
        4 => {
            set_act(src, &mut v);
            v.exit_epoch = e + 1 + src.below(8);
            v.withdrawable_epoch = v.exit_epoch + delay;
        }
        5 => {
            set_act(src, &mut v);
            v.exit_epoch = near(src, e).min(e).max(v.activation_epoch);
            v.withdrawable_epoch = near(src, e).max(v.exit_epoch);
        }
        6 => {
            set_act(src, &mut v);
            v.slashed = true;
            v.exit_epoch = near(src, e + 4).max(v.activation_epoch);
            v.withdrawable_epoch = e + k.EPOCHS_PER_SLASHINGS_VECTOR / 2 + src.weighted(&[6, 1, 1]) as u64;
        }
        7 => {
            set_act(src, &mut v);
            v.slashed = true;
            v.exit_epoch = near(src, e).max(v.activation_epoch);
            v.withdrawable_epoch = near(src, e + 2).max(v.exit_epoch);
        }
        _ => {
            set_act(src, &mut v);
            v.exit_epoch = e + 1 + src.below(300);
            v.withdrawable_epoch = v.exit_epoch + delay;
        }
    }
    let q = inc / 4;
    let eff = v.effective_balance;
    let b = match src.weighted(&[5, 4, 2, 2, 1, 1, if sp.f >= Electra { 2 } else { 0 }]) {
        0 => eff,
        1 => (eff + *src.pick(&[0, q, 5 * q, 6 * q])).saturating_sub(*src.pick(&[0, q, 5 * q, 1])) .saturating_add(src.below(3)).saturating_sub(1),
        2 => eff + src.range(1, 3 * inc),
        3 => eff.saturating_sub(src.range(1, 3 * inc)),
        4 => 0,
        5 => src.range(0, 40 * inc),
        _ => src.range(30 * inc, 2100 * inc),
    };
    (v, b)
}

fn roots(src: &mut Src, n: u64, skip: bool) -> Vec<B32> {
    let mut out: Vec<B32> = vec![];
    let seed = src.u64();
    for i in 0..n {
        if skip && i > 0 && pbt::mix(seed ^ (i * 7 + 3)) % 5 == 0 {
            out.push(out[i as usize - 1]);
        } else {
            let mut a = [0u8; 32];
            a.copy_from_slice(&pbt::expand(pbt::mix(seed ^ i) | 1, 32));
            out.push(a);
        }
    }
    out
}

pub fn payload_header(src: &mut Src, f: Fork) -> PayloadHeader {
    let mut h = PayloadHeader {
        parent_hash: src.arr(),
        fee_recipient: src.arr(),
        state_root: src.arr(),
        receipts_root: src.arr(),
        logs_bloom: Raw(src.bytes(256)),
        prev_randao: src.arr(),
        block_number: src.below(1 << 40),
        gas_limit: src.below(1 << 40),
        gas_used: src.below(1 << 40),
        timestamp: src.below(1 << 40),
        extra_data: Raw({
            let n = src.usize(0, 32);
            src.bytes(n)
        }),
        base_fee_per_gas: src.arr(),
        block_hash: src.arr(),
        transactions_root: src.arr(),
        ..Default::default()
    };
    if f >= Capella {
        h.withdrawals_root = src.arr();
    }
    if f >= Deneb {
        h.blob_gas_used = src.below(1 << 30);
        h.excess_blob_gas = src.below(1 << 30);
    }
    if f >= Electra {
        h.deposit_receipts_root = src.arr();
        h.withdrawal_requests_root = src.arr();
    }
    h
}

pub fn eth1_data(src: &mut Src) -> Eth1Data {
    Eth1Data { deposit_root: src.arr(), deposit_count: src.below(1 << 20), block_hash: src.arr() }
}

pub fn state(src: &mut Src, sp: &Spec, sh: Shape) -> State {
    let k = sp.c.k.clone();
    let f = sp.f;
    let e = epoch(src, sh.small_epoch);
    let off = match sh.offset {
        Some(o) => o.min(k.SLOTS_PER_EPOCH - 1),
        None => src.below(k.SLOTS_PER_EPOCH),
    };
    let slot = (e * k.SLOTS_PER_EPOCH + off).max(if sh.offset.is_none() { 1 } else { 0 });
    let n = match src.weighted(&[3, 3, 2]) {
        0 => src.range(sh.lo, sh.lo.max(24).min(sh.hi)),
        1 => src.range(sh.lo.max(24).min(sh.hi), sh.hi.min(72)),
        _ => src.range(sh.lo, sh.hi),
    };
    // a few large registries: committees of more than 64 and 256, several of them in a slot of mainnet
    let crowd = match sp.c.preset {
        Preset::Mainnet => 8,
        // each of its attestations is looked up several times
        _ if f == Phase0 && !sh.still => 5 * LARGE,
        _ => LARGE,
    };
    let many = if sh.hi >= 140 && src.below(crowd) == crowd - 1 {
        if f == Phase0 && !sh.still {
            src.range(200, 700)
        } else if sp.c.preset == Preset::Mainnet && src.bool() {
            src.range(8100, 9500)
        } else {
            src.range(200, 2200)
        }
    } else {
        n
    };
    let mut s = sp.blank();
    s.slot = slot;
    s.genesis_time = src.below(1 << 36);
    s.genesis_validators_root = src.arr();
    s.fork = ForkRec {
        previous_version: sp.c.FORK_VERSIONS[(f as usize).saturating_sub(1)],
        current_version: sp.c.FORK_VERSIONS[f as usize],
        epoch: match src.weighted(&[3, 2, 2]) {
            0 => 0,
            1 => e.saturating_sub(src.below(3)),
            _ => src.range(0, e + 1),
        },
    };
    if f == Phase0 && src.chance(1, 2) {
        s.fork.previous_version = sp.c.FORK_VERSIONS[1];
    }
    // checkpoints
    let prev = e.saturating_sub(1);
    let fin = match src.weighted(&[4, 2, 2]) {
        0 => e.saturating_sub(2 + src.below(3)),
        1 => e.saturating_sub(src.range(4, 9)),
        _ => src.range(0, prev),
    }
    .min(prev);
    let cp = |src: &mut Src, epoch: u64| Checkpoint { epoch, root: src.arr() };
    s.finalized_checkpoint = cp(src, fin);
    let pj = match src.weighted(&[4, 2, 1]) {
        0 => e.saturating_sub(2),
        1 => e.saturating_sub(src.range(1, 5)),
        _ => fin,
    };
    let cj = match src.weighted(&[4, 2, 1]) {
        0 => e.saturating_sub(1),
        1 => e.saturating_sub(src.range(1, 4)),
        _ => pj,
    };
    s.previous_justified_checkpoint = cp(src, pj);
    s.current_justified_checkpoint = if src.chance(1, 6) { s.previous_justified_checkpoint } else { cp(src, cj) };
    s.justification_bits = Bits((0..4).map(|_| src.chance(2, 3)).collect());
    // history
    s.block_roots = roots(src, k.SLOTS_PER_HISTORICAL_ROOT, true);
    s.state_roots = roots(src, k.SLOTS_PER_HISTORICAL_ROOT, false);
    s.randao_mixes = roots(src, k.EPOCHS_PER_HISTORICAL_VECTOR, false);
    if f >= Capella {
        s.historical_summaries = (0..src.below(4)).map(|_| HistoricalSummary { block_summary_root: src.arr(), state_summary_root: src.arr() }).collect();
    }
    s.historical_roots = (0..src.below(4)).map(|_| src.arr()).collect();
    s.eth1_data = eth1_data(src);
    s.eth1_deposit_index = s.eth1_data.deposit_count;
    let mut pool: Vec<Eth1Data> = (0..3).map(|_| eth1_data(src)).collect();
    for p in pool.iter_mut() {
        if src.chance(2, 3) {
            p.deposit_count = s.eth1_data.deposit_count;
        }
    }
    let votes = match src.weighted(&[2, 2, 1]) {
        0 => src.below(4),
        1 => src.range(13, 19),
        _ => src.range(0, 31),
    };
    // one vote per slot at most since the period began
    let votes = votes.min(s.slot % (sp.c.k.EPOCHS_PER_ETH1_VOTING_PERIOD * sp.c.k.SLOTS_PER_EPOCH));
    s.eth1_data_votes = (0..votes).map(|_| pool[src.weighted(&[6, 1, 1])].clone()).collect();
    // registry
    for i in 0..n {
        let (v, b) = validator(src, sp, e, fin, i);
        s.validators.push(v);
        s.balances.push(b);
    }
    let n0 = n;
    let n = many.max(n);
    let seed = s.genesis_time;
    for i in s.validators.len() as u64..n {
        // like one of the others, with a key of its own
        let j = (pbt::mix(seed ^ i) % n0.min(i)) as usize;
        let mut v = s.validators[j].clone();
        let pk = bls::pk(i);
        if v.withdrawal_credentials == bls_creds(&v.pubkey) {
            v.withdrawal_credentials = bls_creds(&pk);
        }
        v.pubkey = pk;
        s.validators.push(v);
        s.balances.push(s.balances[j]);
    }
    // enough ordinary active validators for committees and proposer sampling to exist
    let need = 4.min(n);
    for i in 0..need {
        let v = &mut s.validators[i as usize];
        if !active(v, e) || !active(v, prev) || !active(v, e + 1) || v.effective_balance < 16 * GWEI {
            v.activation_eligibility_epoch = 0;
            v.activation_epoch = 0;
            v.exit_epoch = FAR_FUTURE;
            v.withdrawable_epoch = FAR_FUTURE;
            v.slashed = false;
            v.effective_balance = 32 * GWEI;
            s.balances[i as usize] = 32 * GWEI;
        }
    }
    if src.chance(2, 3) {
        let m = src.range(0, 40);
        for x in s.slashings.iter_mut() {
            if src.chance(1, 6) {
                *x = src.range(0, m) * GWEI;
            }
        }
    }
    if f == Phase0 {
        pending_attestations(src, sp, &mut s);
    } else {
        let dens = |src: &mut Src| src.below(12);
        let part = |src: &mut Src, n: u64| -> Vec<u8> {
            let (a, b, c) = (dens(src), dens(src), dens(src));
            let seed = src.u64();
            (0..n)
                .map(|i| {
                    let r = pbt::mix(seed ^ i);
                    let mut x = 0u8;
                    for (j, d) in [a, b, c].iter().enumerate() {
                        if (r >> (j * 16)) % 11 < *d {
                            x |= 1 << j;
                        }
                    }
                    x
                })
                .collect()
        };
        s.previous_epoch_participation = part(src, n);
        s.current_epoch_participation = part(src, n);
        s.inactivity_scores = (0..n)
            .map(|_| match src.weighted(&[4, 2, 1]) {
                0 => 0,
                1 => src.below(20),
                _ => src.below(1 << 20),
            })
            .collect();
        if src.chance(1, 3) {
            tune_target_balance(src, sp, &mut s);
        }
        s.current_sync_committee = sync_committee(src, sp, &s);
        s.next_sync_committee = sync_committee(src, sp, &s);
    }
    if f >= Bellatrix && (f >= Capella || src.chance(3, 4)) {
        s.latest_execution_payload_header = payload_header(src, f);
    }
    if f >= Capella {
        s.next_withdrawal_index = src.below(1 << 40);
        s.next_withdrawal_validator_index = src.below(n);
    }
    if f >= Electra {
        electra_fields(src, sp, &mut s);
    }
    // the last block
    let parent = if src.chance(1, 3) { s.slot.saturating_sub(src.below(4)) } else { s.slot.saturating_sub(1) };
    s.latest_block_header = Header { slot: parent.min(s.slot.saturating_sub(1)), proposer_index: src.below(n), parent_root: src.arr(), state_root: if src.chance(1, 2) { [0; 32] } else { src.arr() }, body_root: src.arr() };
    s
}

/// move the number of target attesters to the edge of the two-thirds rule
fn tune_target_balance(src: &mut Src, sp: &Spec, s: &mut State) {
    let cur = src.bool();
    let e = if cur { sp.cur(s) } else { sp.prev(s) };
    let total = sp.total_active(s);
    let ind = sp.active_indices(s, e);
    let over = src.bool();
    let part = if cur { &mut s.current_epoch_participation } else { &mut s.previous_epoch_participation };
    for p in part.iter_mut() {
        *p &= !2;
    }
    let mut bal = 0u64;
    for i in ind {
        let v = &s.validators[i as usize];
        if v.slashed {
            continue;
        }
        let nb = bal + v.effective_balance;
        if nb * 3 >= total * 2 && !over {
            continue;
        }
        part[i as usize] |= 2;
        bal = nb;
        if bal * 3 >= total * 2 {
            break;
        }
    }
}

pub fn sync_committee(src: &mut Src, sp: &Spec, s: &State) -> SyncCommittee {
    let n = s.validators.len() as u64;
    let seed = src.u64();
    let few = src.chance(1, 3);
    let m = if few { n.min(5) } else { n };
    let keys: Vec<u64> = (0..sp.c.k.SYNC_COMMITTEE_SIZE).map(|i| if seed == 0 { i % m } else { pbt::mix(seed ^ i) % m }).collect();
    let pubkeys: Vec<B48> = keys.iter().map(|i| s.validators[*i as usize].pubkey).collect();
    let aggregate_pubkey = bls::agg_pk(&pubkeys).unwrap();
    SyncCommittee { pubkeys, aggregate_pubkey }
}

fn electra_fields(src: &mut Src, sp: &Spec, s: &mut State) {
    let n = s.validators.len() as u64;
    let e = sp.cur(s);
    s.deposit_receipts_start_index = match src.weighted(&[3, 1, 1]) {
        0 => FAR_FUTURE,
        1 => (s.eth1_data.deposit_count + src.below(5)).saturating_sub(2),
        _ => src.below(1 << 20),
    };
    s.deposit_balance_to_consume = src.below(200 * GWEI);
    s.exit_balance_to_consume = src.below(130 * GWEI);
    s.consolidation_balance_to_consume = src.below(130 * GWEI);
    s.earliest_exit_epoch = near(src, e + 5);
    s.earliest_consolidation_epoch = near(src, e + 5);
    for _ in 0..src.below(7) {
        let amount = match src.weighted(&[3, 2, 1]) {
            0 => 32 * GWEI,
            1 => src.below(70 * GWEI),
            _ => src.below(400 * GWEI),
        };
        s.pending_balance_deposits.push(PendingBalanceDeposit { index: src.below(n), amount });
    }
    for _ in 0..src.below(5) {
        s.pending_partial_withdrawals.push(PendingPartialWithdrawal { index: src.below(n), amount: src.below(40 * GWEI), withdrawable_epoch: near(src, e) });
    }
    if src.chance(1, 40) {
        while s.pending_partial_withdrawals.len() < 63 + src.below(2) as usize {
            s.pending_partial_withdrawals.push(PendingPartialWithdrawal { index: src.below(n), amount: 1, withdrawable_epoch: e + 9 });
        }
    }
    for _ in 0..src.below(4) {
        let a = src.below(n);
        let b = src.below(n);
        s.pending_consolidations.push(PendingConsolidation { source_index: a, target_index: b });
        if src.chance(1, 2) && a >= 4 {
            let v = &mut s.validators[a as usize];
            v.exit_epoch = e.saturating_sub(1).max(v.activation_epoch.min(e));
            v.withdrawable_epoch = near(src, e);
        }
    }
    if src.chance(1, 40) {
        while s.pending_consolidations.len() < 64 {
            s.pending_consolidations.push(PendingConsolidation { source_index: src.below(n), target_index: src.below(n) });
        }
    }
}

/// attestations of the previous and current epochs, as phase0 keeps them
fn pending_attestations(src: &mut Src, sp: &Spec, s: &mut State) {
    let n = s.validators.len() as u64;
    for cur in [false, true] {
        let e = if cur { sp.cur(s) } else { sp.prev(s) };
        if !cur && sp.cur(s) == 0 {
            continue;
        }
        let coms = sp.committees(s, e);
        let dens = src.below(12);
        let good = src.range(5, 12);
        let many = src.below(3);
        let mut out = vec![];
        for (so, per) in coms.iter().enumerate() {
            let slot = e * sp.c.k.SLOTS_PER_EPOCH + so as u64;
            if slot >= s.slot {
                continue;
            }
            for (index, com) in per.iter().enumerate() {
                let copies = if many == 0 { src.below(2) } else { 1 + src.below(many + 1) };
                for _ in 0..copies {
                    let seed = src.u64();
                    let bits: Vec<bool> = (0..com.len()).map(|i| pbt::mix(seed ^ i as u64) % 11 < dens).collect();
                    let tr = if src.chance(12 - good.min(11), 12) { src.arr() } else { sp.block_root(s, e).unwrap_or([9; 32]) };
                    let hr = if src.chance(1, 4) { src.arr() } else { sp.block_root_at(s, slot).unwrap_or([9; 32]) };
                    let d = AttestationData {
                        slot,
                        index: index as u64,
                        beacon_block_root: hr,
                        source: if cur { s.current_justified_checkpoint } else { s.previous_justified_checkpoint },
                        target: Checkpoint { epoch: e, root: tr },
                    };
                    let delay = match src.weighted(&[3, 2]) {
                        0 => 1,
                        _ => src.range(1, 8),
                    };
                    out.push(PendingAttestation { aggregation_bits: Bits(bits), data: d, inclusion_delay: delay, proposer_index: src.below(n) });
                }
            }
        }
        if cur {
            s.current_epoch_attestations = out;
        } else {
            s.previous_epoch_attestations = out;
        }
    }
}

// ---------------------------------------------------------------------------------------------------
// operations; each is valid for the state unless the state offers no subject for it

fn some_where(src: &mut Src, s: &State, ok: impl Fn(u64, &Validator) -> bool) -> Option<u64> {
    let c: Vec<u64> = s.validators.iter().enumerate().filter(|(i, v)| ok(*i as u64, v)).map(|(i, _)| i as u64).collect();
    if c.is_empty() {
        None
    } else {
        Some(*src.pick(&c))
    }
}
/// index of the secret key behind a public key
pub fn key_of(s: &State, i: u64) -> u64 {
    let p = s.validators[i as usize].pubkey;
    { let _ = i; bls::index_of(&p) }
}

pub fn attestation(src: &mut Src, sp: &Spec, s: &State) -> Option<Attestation> {
    let k = &sp.c.k;
    let cur = sp.cur(s);
    let late = if sp.f >= Deneb { cur.saturating_sub(1) * k.SLOTS_PER_EPOCH } else { s.slot.saturating_sub(k.SLOTS_PER_EPOCH).max(cur.saturating_sub(1) * k.SLOTS_PER_EPOCH) };
    if s.slot == 0 || late > s.slot - 1 {
        return None;
    }
    let slot = match src.weighted(&[8, 8, 4, 1]) {
        0 => s.slot - 1,
        1 => src.range(late, s.slot - 1),
        // outside the window, on either side
        3 => {
            if src.chance(1, 2) {
                s.slot + src.below(2)
            } else {
                (cur.saturating_sub(1) * k.SLOTS_PER_EPOCH + src.below(k.SLOTS_PER_EPOCH + 1)).saturating_sub(src.below(2)).min(s.slot - 1)
            }
        }
        _ => s.slot.saturating_sub(*src.pick(&[2, 3, 8, 9])).max(late).min(s.slot - 1),
    };
    let e = sp.epoch_at(slot);
    let count = sp.committee_count(s, e);
    let just = if e == cur { s.current_justified_checkpoint } else { s.previous_justified_checkpoint };
    let mut d = AttestationData {
        slot,
        index: 0,
        beacon_block_root: if src.chance(1, 5) { src.arr() } else { sp.block_root_at(s, slot).unwrap_or([9; 32]) },
        source: just,
        target: Checkpoint { epoch: e, root: [0; 32] },
    };
    d.target.root = if src.chance(1, 6) { src.arr() } else { sp.block_root(s, e).unwrap_or([7; 32]) };
    let mut a = Attestation::default();
    let mut all: Vec<u64> = vec![];
    if sp.f < Electra {
        d.index = src.below(count);
        all = sp.committee(s, slot, d.index);
    } else {
        let mut bits = vec![false; k.MAX_COMMITTEES_PER_SLOT as usize];
        for i in 0..count {
            if src.chance(1, 2) {
                bits[i as usize] = true;
            }
        }
        if !bits.iter().any(|b| *b) {
            bits[src.below(count) as usize] = true;
        }
        for i in 0..count {
            if bits[i as usize] {
                all.extend(sp.committee(s, slot, i));
            }
        }
        a.committee_bits = Bits(bits);
    }
    if all.is_empty() {
        return None;
    }
    let mode = src.below(3);
    let seed = src.u64();
    let mut bits: Vec<bool> = (0..all.len())
        .map(|i| match mode {
            0 => pbt::mix(seed ^ i as u64) % 2 == 0,
            1 => true,
            _ => pbt::mix(seed ^ i as u64) % 6 == 0,
        })
        .collect();
    if !bits.iter().any(|b| *b) {
        let i = src.idx(bits.len());
        bits[i] = true;
    }
    a.aggregation_bits = Bits(bits);
    a.data = d;
    sign_attestation(sp, s, &mut a);
    Some(a)
}
/// sign with the keys of the attesters the bits name
pub fn sign_attestation(sp: &Spec, s: &State, a: &mut Attestation) {
    if let Ok(ix) = sp.attestation_attesters(s, a) {
        let keys: Vec<u64> = ix.iter().map(|i| key_of(s, *i)).collect();
        let d = sp.domain(s, DOMAIN_BEACON_ATTESTER, a.data.target.epoch);
        a.signature = bls::sign_all(&keys, &signing_root(sp.att_data_root(&a.data), d));
    }
}

pub fn proposer_slashing(src: &mut Src, sp: &Spec, s: &State) -> Option<ProposerSlashing> {
    let e = sp.cur(s);
    let i = some_where(src, s, |_, v| slashable(v, e))?;
    let slot = match src.weighted(&[3, 2, 1]) {
        0 => s.slot,
        1 => src.range(0, s.slot),
        _ => s.fork.epoch.saturating_mul(sp.c.k.SLOTS_PER_EPOCH).saturating_sub(src.below(2)),
    };
    let h1 = Header { slot, proposer_index: i, parent_root: src.arr(), state_root: src.arr(), body_root: src.arr() };
    let mut h2 = h1.clone();
    match src.below(3) {
        0 => h2.body_root[3] ^= 1,
        1 => h2.parent_root[31] ^= 0x80,
        _ => h2.state_root = [5; 32],
    }
    if h1 == h2 {
        h2.body_root[0] ^= 1;
    }
    let mut x = ProposerSlashing::default();
    x.signed_header_1.message = h1;
    x.signed_header_2.message = h2;
    sign_proposer_slashing(sp, s, &mut x);
    Some(x)
}
pub fn sign_header(sp: &Spec, s: &State, h: &mut SignedHeader) {
    if h.message.proposer_index < s.validators.len() as u64 {
        let d = sp.domain(s, DOMAIN_BEACON_PROPOSER, sp.epoch_at(h.message.slot));
        h.signature = bls::sign(key_of(s, h.message.proposer_index), &signing_root(sp.header_root(&h.message), d));
    }
}
/// both by the first header's proposer, whose key the specification takes for both
pub fn sign_proposer_slashing(sp: &Spec, s: &State, x: &mut ProposerSlashing) {
    sign_header(sp, s, &mut x.signed_header_1);
    let i = x.signed_header_1.message.proposer_index;
    if i < s.validators.len() as u64 {
        let h = &mut x.signed_header_2;
        let d = sp.domain(s, DOMAIN_BEACON_PROPOSER, sp.epoch_at(h.message.slot));
        h.signature = bls::sign(key_of(s, i), &signing_root(sp.header_root(&h.message), d));
    }
}

pub fn sign_indexed(sp: &Spec, s: &State, a: &mut IndexedAttestation) {
    if a.attesting_indices.iter().all(|i| *i < s.validators.len() as u64) {
        let keys: Vec<u64> = a.attesting_indices.iter().map(|i| key_of(s, *i)).collect();
        let d = sp.domain(s, DOMAIN_BEACON_ATTESTER, a.data.target.epoch);
        a.signature = bls::sign_all(&keys, &signing_root(sp.att_data_root(&a.data), d));
    }
}
pub fn attester_slashing(src: &mut Src, sp: &Spec, s: &State) -> Option<AttesterSlashing> {
    let e = sp.cur(s);
    let n = s.validators.len() as u64;
    let must = some_where(src, s, |_, v| slashable(v, e))?;
    let subset = |src: &mut Src| -> Vec<u64> {
        let mut b: BTreeSet<u64> = (0..src.below(6)).map(|_| src.below(n)).collect();
        b.insert(must);
        b.into_iter().collect()
    };
    let mk = |src: &mut Src| AttestationData {
        slot: s.slot.saturating_sub(src.below(20)),
        index: src.below(4),
        beacon_block_root: src.arr(),
        source: Checkpoint { epoch: e.saturating_sub(3 + src.below(3)), root: src.arr() },
        target: Checkpoint { epoch: e.saturating_sub(src.below(2)), root: src.arr() },
    };
    let d1 = mk(src);
    let mut d2 = d1.clone();
    let mut d1 = d1;
    match src.weighted(&[3, 3]) {
        0 => match src.below(5) {
            0 => d2.beacon_block_root[0] ^= 1,
            1 => d2.target.root[1] ^= 1,
            2 => d2.index += 1,
            3 => d2.source.epoch += 1,
            _ => d2.slot += 1,
        },
        _ => {
            // 1 surrounds 2
            let a = src.below(3);
            let (s1, t2) = (src.below(e + 1), src.below(e + 2));
            d1.source.epoch = s1;
            d2.source.epoch = s1 + 1 + a;
            d2.target.epoch = t2;
            d1.target.epoch = t2 + 1 + src.below(2);
        }
    }
    let mut x = AttesterSlashing::default();
    x.attestation_1.data = d1;
    x.attestation_2.data = d2;
    x.attestation_1.attesting_indices = subset(src);
    x.attestation_2.attesting_indices = subset(src);
    sign_attester_slashing(sp, s, &mut x);
    Some(x)
}
pub fn sign_attester_slashing(sp: &Spec, s: &State, x: &mut AttesterSlashing) {
    sign_indexed(sp, s, &mut x.attestation_1);
    sign_indexed(sp, s, &mut x.attestation_2);
}

pub fn voluntary_exit(src: &mut Src, sp: &Spec, s: &State) -> Option<SignedVoluntaryExit> {
    let e = sp.cur(s);
    let i = match some_where(src, s, |i, v| {
        active(v, e) && v.exit_epoch == FAR_FUTURE && e >= v.activation_epoch.saturating_add(sp.c.SHARD_COMMITTEE_PERIOD) && (sp.f < Electra || sp.pending_to_withdraw(s, i) == 0)
    }) {
        Some(i) if !src.chance(1, 12) => i,
        _ => {
            // nobody may leave, or an exit that is refused for one reason
            let all = src.chance(1, 2);
            some_where(src, s, |_, v| all || (active(v, e) && v.exit_epoch == FAR_FUTURE))?
        }
    };
    let epoch = match src.weighted(&[2, 2, 1]) {
        0 => e,
        1 => src.range(0, e),
        _ => s.fork.epoch.saturating_sub(src.below(2)).min(e),
    };
    let mut x = SignedVoluntaryExit { message: VoluntaryExit { epoch, validator_index: i }, signature: [0; 96] };
    sign_exit(sp, s, &mut x);
    Some(x)
}
pub fn sign_exit(sp: &Spec, s: &State, x: &mut SignedVoluntaryExit) {
    if x.message.validator_index < s.validators.len() as u64 {
        let r = signing_root(sp.fp().root("VoluntaryExit", &x.message), sp.exit_domain(s, x.message.epoch));
        x.signature = bls::sign(key_of(s, x.message.validator_index), &r);
    }
}

pub fn sign_deposit(sp: &Spec, key: u64, d: &mut DepositData) {
    let m = DepositMessage { pubkey: d.pubkey, withdrawal_credentials: d.withdrawal_credentials, amount: d.amount };
    let dom = compute_domain(DOMAIN_DEPOSIT, sp.c.FORK_VERSIONS[0], &[0; 32]);
    d.signature = bls::sign(key, &signing_root(sp.fp().root("DepositMessage", &m), dom));
}
pub fn deposit_data(src: &mut Src, sp: &Spec, s: &State) -> DepositData {
    let n = s.validators.len() as u64;
    let key = if src.chance(1, 2) { src.below(n) } else { n + src.below(4) };
    let pubkey = bls::pk(key);
    let inc = sp.c.k.EFFECTIVE_BALANCE_INCREMENT;
    let mut d = DepositData {
        pubkey,
        withdrawal_credentials: creds(src, sp.f, &pubkey),
        amount: match src.weighted(&[4, 2, 2, 1]) {
            0 => 32 * inc,
            1 => src.range(1, 40) * inc,
            2 => src.range(0, 40 * inc),
            _ => src.range(30, 3000) * inc + src.below(3),
        },
        signature: [0; 96],
    };
    sign_deposit(sp, key, &mut d);
    if src.chance(1, 5) {
        // a deposit whose signature does not verify is still processed
        match src.below(3) {
            0 => d.signature = src.arr(),
            1 => d.amount += 1,
            _ => sign_deposit(sp, key + 1, &mut d),
        }
    }
    d
}
/// deposits together with the contract root and count that admit them at `s.eth1_deposit_index`
pub fn deposits(src: &mut Src, sp: &Spec, s: &mut State, m: usize) -> Vec<Deposit> {
    let before = if src.chance(1, 2) { src.below(4) } else { src.below(40) };
    let after = src.below(4);
    let datas: Vec<DepositData> = (0..m).map(|_| deposit_data(src, sp, s)).collect();
    let mut leaves: Vec<H> = (0..before).map(|i| sha(&[b"old", &i.to_le_bytes()])).collect();
    leaves.extend(datas.iter().map(|d| sp.fp().root("DepositData", d)));
    leaves.extend((0..after).map(|i| sha(&[b"new", &i.to_le_bytes()])));
    s.eth1_deposit_index = before;
    s.eth1_data.deposit_count = before + m as u64 + if m as u64 == sp.c.k.MAX_DEPOSITS { after } else { 0 };
    s.eth1_data.deposit_root = mix_len(merkleize(leaves.clone(), 1 << 32), leaves.len());
    datas
        .into_iter()
        .enumerate()
        .map(|(i, data)| {
            let mut proof = branch(&leaves, 32, before as usize + i);
            let mut l = [0u8; 32];
            l[..8].copy_from_slice(&(leaves.len() as u64).to_le_bytes());
            proof.push(l);
            Deposit { proof, data }
        })
        .collect()
}

pub fn sync_aggregate(src: &mut Src, sp: &Spec, s: &State) -> SyncAggregate {
    let n = sp.c.k.SYNC_COMMITTEE_SIZE as usize;
    let mode = src.weighted(&[3, 2, 1, 1]);
    let seed = src.u64();
    let bits: Vec<bool> = (0..n)
        .map(|i| match mode {
            0 => pbt::mix(seed ^ i as u64) % 4 != 0,
            1 => true,
            2 => false,
            _ => i as u64 == seed % n as u64,
        })
        .collect();
    let mut a = SyncAggregate { sync_committee_bits: Bits(bits), sync_committee_signature: bls::INF_SIG };
    sign_sync(sp, s, &mut a);
    a
}
pub fn key_of_pk(p: &B48) -> u64 {
    bls::index_of(p)
}
pub fn sign_sync(sp: &Spec, s: &State, a: &mut SyncAggregate) {
    let keys: Vec<u64> = s.current_sync_committee.pubkeys.iter().zip(&a.sync_committee_bits.0).filter(|(_, b)| **b).map(|(p, _)| key_of_pk(p)).collect();
    if keys.is_empty() {
        a.sync_committee_signature = bls::INF_SIG;
        return;
    }
    let prev = s.slot.max(1) - 1;
    if let Ok(root) = sp.block_root_at(s, prev) {
        let d = sp.domain(s, DOMAIN_SYNC_COMMITTEE, sp.epoch_at(prev));
        a.sync_committee_signature = bls::sign_all(&keys, &signing_root(root, d));
    }
}

pub fn payload(src: &mut Src, sp: &Spec, s: &State) -> Payload {
    let f = sp.f;
    let mut p = Payload {
        parent_hash: s.latest_execution_payload_header.block_hash,
        fee_recipient: src.arr(),
        state_root: src.arr(),
        receipts_root: src.arr(),
        logs_bloom: Raw(src.bytes(256)),
        prev_randao: sp.randao_mix(s, sp.cur(s)),
        block_number: src.below(1 << 40),
        gas_limit: src.below(1 << 40),
        gas_used: src.below(1 << 40),
        timestamp: sp.timestamp_at(s, s.slot),
        extra_data: Raw({
            let n = src.usize(0, 32);
            src.bytes(n)
        }),
        base_fee_per_gas: src.arr(),
        block_hash: src.arr(),
        transactions: (0..src.below(4))
            .map(|_| {
                let n = src.usize(0, 80);
                Raw(src.bytes(n))
            })
            .collect(),
        ..sp.default_payload()
    };
    if f >= Capella {
        p.withdrawals = sp.expected_withdrawals(s).0;
    }
    if f >= Deneb {
        p.blob_gas_used = src.below(1 << 30);
        p.excess_blob_gas = src.below(1 << 30);
    }
    if f >= Electra {
        for _ in 0..src.below(3) {
            p.deposit_receipts.push(deposit_receipt(src, sp, s));
        }
        for _ in 0..src.below(3) {
            p.withdrawal_requests.push(withdrawal_request(src, sp, s));
        }
    }
    p
}
pub fn bls_change(src: &mut Src, sp: &Spec, s: &State) -> Option<SignedBlsChange> {
    let i = some_where(src, s, |_, v| v.withdrawal_credentials == bls_creds(&v.pubkey))?;
    let mut x = SignedBlsChange { message: BlsChange { validator_index: i, from_bls_pubkey: s.validators[i as usize].pubkey, to_execution_address: src.arr() }, signature: [0; 96] };
    sign_bls_change(sp, s, &mut x);
    Some(x)
}
pub fn sign_bls_change(sp: &Spec, s: &State, x: &mut SignedBlsChange) {
    let d = compute_domain(DOMAIN_BLS_TO_EXECUTION_CHANGE, sp.c.FORK_VERSIONS[0], &s.genesis_validators_root);
    let r = signing_root(sp.fp().root("BLSToExecutionChange", &x.message), d);
    x.signature = bls::sign(key_of_pk(&x.message.from_bls_pubkey), &r);
}
pub fn deposit_receipt(src: &mut Src, sp: &Spec, s: &State) -> DepositReceipt {
    let d = deposit_data(src, sp, s);
    DepositReceipt { pubkey: d.pubkey, withdrawal_credentials: d.withdrawal_credentials, amount: d.amount, signature: d.signature, index: src.below(1 << 20) }
}
pub fn withdrawal_request(src: &mut Src, sp: &Spec, s: &State) -> WithdrawalRequest {
    let e = sp.cur(s);
    let n = s.validators.len() as u64;
    let i = if src.chance(1, 5) {
        src.below(n)
    } else {
        some_where(src, s, |_, v| has_exec_cred(v) && active(v, e) && v.exit_epoch == FAR_FUTURE).unwrap_or(0)
    };
    let v = &s.validators[i as usize];
    let mut a: B20 = v.withdrawal_credentials[12..].try_into().unwrap();
    if src.chance(1, 10) {
        a = addr(src.idx(ADDRS));
    }
    WithdrawalRequest {
        source_address: a,
        validator_pubkey: if src.chance(1, 12) { bls::pk(n + 3) } else { v.pubkey },
        amount: match src.weighted(&[3, 3, 1]) {
            0 => 0,
            1 => src.range(1, 40 * GWEI),
            _ => src.range(1, 3000) * GWEI,
        },
    }
}
pub fn consolidation(src: &mut Src, sp: &Spec, s: &State) -> Option<SignedConsolidation> {
    let e = sp.cur(s);
    let ok = |v: &Validator| active(v, e) && v.exit_epoch == FAR_FUTURE && has_exec_cred(v);
    let a = some_where(src, s, |_, v| ok(v))?;
    let ca = s.validators[a as usize].withdrawal_credentials;
    let b = some_where(src, s, |i, v| i != a && ok(v) && v.withdrawal_credentials[12..] == ca[12..])?;
    let mut x = SignedConsolidation { message: Consolidation { source_index: a, target_index: b, epoch: if src.chance(1, 3) { src.range(0, e) } else { e } }, signature: [0; 96] };
    sign_consolidation(sp, s, &mut x);
    Some(x)
}
pub fn sign_consolidation(sp: &Spec, s: &State, x: &mut SignedConsolidation) {
    let n = s.validators.len() as u64;
    if x.message.source_index < n && x.message.target_index < n {
        let d = compute_domain(DOMAIN_CONSOLIDATION, sp.c.FORK_VERSIONS[0], &s.genesis_validators_root);
        let r = signing_root(sp.fp().root("Consolidation", &x.message), d);
        x.signature = bls::sign_all(&[key_of(s, x.message.source_index), key_of(s, x.message.target_index)], &r);
    }
}

// ---------------------------------------------------------------------------------------------------
// blocks

/// Knobs of block building
#[derive(Clone, Copy)]
pub struct Plan {
    /// none when the state may not be adjusted
    pub deposits: bool,
    /// at most this many operations of each kind
    pub ops: u64,
}
/// An unsigned block for the slot the state is in, valid by the model except for its state root. `s` may
/// have its deposit contract fields adjusted so that deposits fit.
pub fn block(src: &mut Src, sp: &Spec, s: &mut State, plan: Plan) -> R<Block> {
    let k = sp.c.k.clone();
    let f = sp.f;
    let e = sp.cur(s);
    let mut b = Block { slot: s.slot, proposer_index: sp.proposer(s)?, parent_root: sp.header_root(&s.latest_block_header), state_root: [0; 32], body: Body::default() };
    let body = &mut b.body;
    body.graffiti = src.arr();
    body.execution_payload = sp.default_payload();
    body.sync_aggregate.sync_committee_signature = bls::INF_SIG;
    body.sync_aggregate.sync_committee_bits = Bits(vec![false; k.SYNC_COMMITTEE_SIZE as usize]);
    let root = signing_root(u64_root(e), sp.domain(s, DOMAIN_RANDAO, e));
    body.randao_reveal = bls::sign(key_of(s, b.proposer_index), &root);
    body.eth1_data = if src.chance(1, 3) || s.eth1_data_votes.is_empty() {
        s.eth1_data.clone()
    } else {
        let i = src.idx(s.eth1_data_votes.len());
        s.eth1_data_votes[i].clone()
    };
    // a probe state follows the operations so that each new one is valid after those before it
    let max_dep = if plan.deposits && plan.ops > 0 && (f < Electra || s.deposit_receipts_start_index == FAR_FUTURE) { src.below(plan.ops.min(3) + 1) as usize } else { 0 };
    let due = if f >= Electra { s.eth1_data.deposit_count.min(s.deposit_receipts_start_index).saturating_sub(s.eth1_deposit_index) } else { s.eth1_data.deposit_count - s.eth1_deposit_index };
    if due == 0 && max_dep > 0 && !s.eth1_data_votes.contains(&s.eth1_data) {
        let d = deposits(src, sp, s, max_dep);
        body.eth1_data = s.eth1_data.clone();
        body.deposits = d;
    }
    if (f == Bellatrix && (sp.merge_complete(s) || src.chance(1, 3))) || f >= Capella {
        body.execution_payload = payload(src, sp, s);
    }
    if f >= Deneb {
        body.blob_kzg_commitments = (0..src.below(7)).map(|_| src.arr()).collect();
    }
    let body = b.body.clone();
    let mut probe = s.clone();
    // the checks before the operations
    probe.latest_block_header.slot = s.latest_block_header.slot;
    if f >= Capella {
        sp.withdrawals(&mut probe, &body.execution_payload)?;
        sp.execution_payload(&mut probe, &body)?;
    } else if f == Bellatrix && sp.execution_enabled(&probe, &body) {
        sp.execution_payload(&mut probe, &body)?;
    }
    sp.randao(&mut probe, &body.randao_reveal)?;
    sp.eth1(&mut probe, &body.eth1_data)?;
    let body = &mut b.body;
    macro_rules! add {
        ($n:expr, $list:ident, $gen:expr, $apply:ident) => {
            for _ in 0..src.below($n.min(plan.ops) + 1) {
                #[allow(clippy::redundant_closure_call)]
                if let Some(x) = ($gen)(src, sp, &probe) {
                    let mut t = probe.clone();
                    if sp.$apply(&mut t, &x).is_ok() {
                        probe = t;
                        body.$list.push(x);
                    }
                }
            }
        };
    }
    let (mas, mat) = if f >= Electra { (k.MAX_ATTESTER_SLASHINGS_ELECTRA, k.MAX_ATTESTATIONS_ELECTRA) } else { (k.MAX_ATTESTER_SLASHINGS, 6) };
    add!(2u64, proposer_slashings, proposer_slashing, proposer_slashing);
    add!(mas, attester_slashings, attester_slashing, attester_slashing);
    add!(mat, attestations, attestation, attestation);
    for d in body.deposits.clone() {
        sp.deposit(&mut probe, &d)?;
    }
    add!(2u64, voluntary_exits, voluntary_exit, voluntary_exit);
    if f >= Capella {
        add!(2u64, bls_to_execution_changes, bls_change, bls_change);
    }
    if f >= Electra {
        for x in body.execution_payload.withdrawal_requests.clone() {
            sp.withdrawal_request(&mut probe, &x)?;
        }
        for x in body.execution_payload.deposit_receipts.clone() {
            sp.deposit_receipt(&mut probe, &x)?;
        }
        add!(1u64, consolidations, consolidation, consolidation);
    }
    if f >= Altair {
        body.sync_aggregate = sync_aggregate(src, sp, &probe);
    }
    Ok(b)
}
/// sign a block as its proposer
pub fn sign_block(sp: &Spec, s: &State, b: &Block) -> SignedBlock {
    let root = sp.block_signing_root(s, b);
    let signature = if b.proposer_index < s.validators.len() as u64 { bls::sign(key_of(s, b.proposer_index), &root) } else { [0; 96] };
    SignedBlock { message: b.clone(), signature }
}

// ---------------------------------------------------------------------------------------------------
// mutation of any value, guided by its schema

/// change one leaf or list of a value; returns the path that was changed
pub fn mutate(src: &mut Src, v: &mut Value, t: &Ty) -> String {
    match (v, t) {
        (Value::Cont(fs), Ty::Cont(c)) => {
            let i = src.idx(fs.len());
            let p = mutate(src, &mut fs[i], &c.fields[i].1);
            format!("{}.{}", c.fields[i].0, p)
        }
        (Value::Seq(xs), t) => {
            let (fixed, bound) = match t {
                Ty::List(_, n) => (false, *n),
                Ty::Vector(_, n) => (true, *n),
                _ => unreachable!(),
            };
            let op = src.below(5);
            if !fixed && op == 0 && !xs.is_empty() {
                let i = src.idx(xs.len());
                xs.remove(i);
                return format!("remove {i}");
            }
            if !fixed && op == 1 && !xs.is_empty() && xs.len() < bound {
                let i = src.idx(xs.len());
                let x = xs[i].clone();
                let j = src.idx(xs.len() + 1);
                xs.insert(j, x);
                return format!("duplicate {i} at {j}");
            }
            if op == 2 && xs.len() > 1 {
                let (i, j) = (src.idx(xs.len()), src.idx(xs.len()));
                xs.swap(i, j);
                return format!("swap {i} {j}");
            }
            if xs.is_empty() {
                if !fixed && bound > 0 {
                    xs.push(zero(t.elem()));
                    return "push zero".into();
                }
                return "nothing".into();
            }
            let i = src.idx(xs.len());
            let p = mutate(src, &mut xs[i], t.elem());
            format!("{i}.{p}")
        }
        (Value::U(x), t) => {
            let old = *x;
            let max = if matches!(t, Ty::U8) { 255 } else { u64::MAX };
            *x = match src.weighted(&[4, 4, 2, 2, 1]) {
                0 => old.wrapping_add(1) & max,
                1 => old.wrapping_sub(1) & max,
                2 => src.below(16),
                3 => src.edgy() & max,
                _ => old ^ (1 << src.below(if max == 255 { 8 } else { 40 })),
            };
            format!("{old}->{x}")
        }
        (Value::U256(b), _) => {
            let i = src.idx(32);
            b[i] ^= 1 << src.below(8);
            "bit".into()
        }
        (Value::Bool(b), _) => {
            *b = !*b;
            "flip".into()
        }
        (Value::Bytes(b), t) => {
            if let Ty::ByteList(n) = t {
                if src.chance(1, 3) && b.len() < *n {
                    b.push(src.below(256) as u8);
                    return "longer".into();
                }
                if src.chance(1, 3) && !b.is_empty() {
                    b.pop();
                    return "shorter".into();
                }
            }
            if b.is_empty() {
                return "nothing".into();
            }
            if src.chance(1, 8) {
                for x in b.iter_mut() {
                    *x = 0;
                }
                return "zero".into();
            }
            let i = src.idx(b.len());
            b[i] ^= 1 << src.below(8);
            format!("bit of byte {i}")
        }
        (Value::Bits(b), t) => {
            if let Ty::Bitlist(n) = t {
                if src.chance(1, 3) && b.len() < *n {
                    b.push(src.bool());
                    return "longer".into();
                }
                if src.chance(1, 3) && !b.is_empty() {
                    b.pop();
                    return "shorter".into();
                }
            }
            if b.is_empty() {
                return "nothing".into();
            }
            let i = src.idx(b.len());
            b[i] = !b[i];
            format!("bit {i}")
        }
        _ => unreachable!(),
    }
}
pub fn mutate_as<T: Val>(src: &mut Src, fp: Fp, name: &str, x: &T) -> (T, String) {
    let t = fp.ty(name);
    let mut v = x.to_v(&t);
    let p = mutate(src, &mut v, &t);
    (T::from_v(&v, &t), p)
}
/// an arbitrary value of a type
pub fn value(src: &mut Src, t: &Ty, budget: &mut i64) -> Value {
    *budget -= 1;
    match t {
        Ty::U8 => Value::U(src.below(256)),
        Ty::U64 => Value::U(src.edgy()),
        Ty::U256 => Value::U256(if src.chance(1, 4) {
            let mut a = [0u8; 32];
            a[..8].copy_from_slice(&src.edgy().to_le_bytes());
            a
        } else {
            src.arr()
        }),
        Ty::Bool => Value::Bool(src.bool()),
        Ty::Bytes(n) => Value::Bytes(src.bytes(*n)),
        Ty::ByteList(n) => {
            let m = len(src, *n, 80);
            Value::Bytes(src.bytes(m))
        }
        Ty::Bitvector(n) => {
            let b = src.bytes(n.div_ceil(8));
            Value::Bits((0..*n).map(|i| b[i / 8] >> (i % 8) & 1 == 1).collect())
        }
        Ty::Bitlist(n) => {
            let m = len(src, *n, 70);
            let b = src.bytes(m.div_ceil(8));
            Value::Bits((0..m).map(|i| b[i / 8] >> (i % 8) & 1 == 1).collect())
        }
        Ty::Vector(e, n) => {
            if *n > 200 {
                // long vectors repeat a few values
                let pool: Vec<Value> = (0..4).map(|_| value(src, e, budget)).collect();
                let seed = src.u64();
                return Value::Seq((0..*n).map(|i| pool[(pbt::mix(seed ^ i as u64) % 4) as usize].clone()).collect());
            }
            Value::Seq((0..*n).map(|_| value(src, e, budget)).collect())
        }
        Ty::List(e, n) => {
            let m = if *budget < 0 { src.usize(0, 1.min(*n)) } else { len(src, *n, 5) };
            Value::Seq((0..m).map(|_| value(src, e, budget)).collect())
        }
        Ty::Cont(c) => Value::Cont(c.fields.iter().map(|(_, t)| value(src, t, budget)).collect()),
    }
}
fn len(src: &mut Src, bound: usize, typical: usize) -> usize {
    match src.weighted(&[6, 2, 1]) {
        0 => src.usize(0, typical.min(bound)),
        1 => 0,
        _ => {
            if bound <= 64 {
                bound
            } else {
                src.usize(0, (typical * 4).min(bound))
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------------
// attested targets

/// make exactly these validators the target attesters of the previous and of the current epoch
pub fn set_targets(sp: &Spec, s: &mut State, sets: [&BTreeSet<u64>; 2]) {
    for cur in [false, true] {
        let who = sets[cur as usize];
        let e = if cur { sp.cur(s) } else { sp.prev(s) };
        if sp.f == Phase0 {
            if !cur && sp.cur(s) == 0 {
                continue;
            }
            let coms = sp.committees(s, e);
            let root = sp.block_root(s, e).unwrap_or([9; 32]);
            let list = if cur { &mut s.current_epoch_attestations } else { &mut s.previous_epoch_attestations };
            // attestations to other targets stay as noise
            list.retain(|a| a.data.target.root != root);
            for a in list.iter_mut() {
                if a.data.target.root == root {
                    a.data.target.root[0] ^= 1;
                }
            }
            for (so, per) in coms.iter().enumerate() {
                for (index, com) in per.iter().enumerate() {
                    let bits: Vec<bool> = com.iter().map(|i| who.contains(i)).collect();
                    if !bits.iter().any(|b| *b) {
                        continue;
                    }
                    let slot = e * sp.c.k.SLOTS_PER_EPOCH + so as u64;
                    list.push(PendingAttestation {
                        aggregation_bits: Bits(bits),
                        data: AttestationData {
                            slot,
                            index: index as u64,
                            beacon_block_root: [so as u8; 32],
                            source: if cur { s.current_justified_checkpoint } else { s.previous_justified_checkpoint },
                            target: Checkpoint { epoch: e, root },
                        },
                        inclusion_delay: 1,
                        proposer_index: 0,
                    });
                }
            }
        } else {
            let part = if cur { &mut s.current_epoch_participation } else { &mut s.previous_epoch_participation };
            for (i, p) in part.iter_mut().enumerate() {
                *p &= !2;
                if who.contains(&(i as u64)) {
                    *p |= 2;
                }
            }
        }
    }
}
/// a set of validators active in an epoch whose unslashed balance lies right below, at or above two thirds
pub fn supermajority(src: &mut Src, sp: &Spec, s: &State, e: u64) -> (BTreeSet<u64>, &'static str) {
    let total = sp.total_active(s);
    let ind = sp.active_indices(s, e);
    let mode = src.weighted(&[3, 3, 2, 1, 1]);
    let mut order: Vec<u64> = ind.clone();
    let seed = src.u64();
    order.sort_by_key(|i| if seed == 0 { *i } else { pbt::mix(seed ^ *i) });
    let mut out = BTreeSet::new();
    let mut bal = 0u64;
    match mode {
        0 | 1 => {
            for i in order {
                let v = &s.validators[i as usize];
                if v.slashed {
                    // slashed validators never count
                    if src.chance(1, 2) {
                        out.insert(i);
                    }
                    continue;
                }
                let nb = bal + v.effective_balance;
                if mode == 0 && nb * 3 >= total * 2 {
                    continue;
                }
                out.insert(i);
                bal = nb;
                if bal * 3 >= total * 2 {
                    break;
                }
            }
        }
        2 => {
            out.extend(order.into_iter().filter(|i| pbt::mix(seed ^ (*i << 9)) % 8 != 0));
        }
        3 => {}
        _ => out.extend(order),
    }
    (out, ["just below two thirds", "just at two thirds", "most", "none", "all"][mode])
}

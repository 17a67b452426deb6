//! Reference implementation of the consensus specification (phase0 to electra v1.5.0-alpha.2), written
//! from the specification in the order the specification gives it, for clarity rather than speed.
#![allow(clippy::too_many_arguments)]
use crate::{bls, cfg::*, ssz::*, types::*};
use std::collections::{BTreeMap, BTreeSet};

pub type R<T> = Result<T, &'static str>;

pub const DOMAIN_BEACON_PROPOSER: [u8; 4] = [0, 0, 0, 0];
pub const DOMAIN_BEACON_ATTESTER: [u8; 4] = [1, 0, 0, 0];
pub const DOMAIN_RANDAO: [u8; 4] = [2, 0, 0, 0];
pub const DOMAIN_DEPOSIT: [u8; 4] = [3, 0, 0, 0];
pub const DOMAIN_VOLUNTARY_EXIT: [u8; 4] = [4, 0, 0, 0];
pub const DOMAIN_SELECTION_PROOF: [u8; 4] = [5, 0, 0, 0];
pub const DOMAIN_AGGREGATE_AND_PROOF: [u8; 4] = [6, 0, 0, 0];
pub const DOMAIN_SYNC_COMMITTEE: [u8; 4] = [7, 0, 0, 0];
pub const DOMAIN_SYNC_COMMITTEE_SELECTION_PROOF: [u8; 4] = [8, 0, 0, 0];
pub const DOMAIN_CONTRIBUTION_AND_PROOF: [u8; 4] = [9, 0, 0, 0];
pub const DOMAIN_BLS_TO_EXECUTION_CHANGE: [u8; 4] = [10, 0, 0, 0];
pub const DOMAIN_CONSOLIDATION: [u8; 4] = [11, 0, 0, 0];
pub const DOMAIN_APPLICATION_BUILDER: [u8; 4] = [0, 0, 0, 1];

pub const BASE_REWARDS_PER_EPOCH: u64 = 4;
pub const TIMELY_SOURCE: usize = 0;
pub const TIMELY_TARGET: usize = 1;
pub const TIMELY_HEAD: usize = 2;
pub const WEIGHTS: [u64; 3] = [14, 26, 14];
pub const SYNC_REWARD_WEIGHT: u64 = 2;
pub const PROPOSER_WEIGHT: u64 = 8;
pub const WEIGHT_DENOMINATOR: u64 = 64;
pub const UNSET_DEPOSIT_RECEIPTS_START_INDEX: u64 = u64::MAX;

pub struct Spec {
    pub c: Cfg,
    pub f: Fork,
}

pub fn isqrt(n: u64) -> u64 {
    let mut x = (n as f64).sqrt() as u64;
    while (x as u128) * (x as u128) > n as u128 {
        x -= 1;
    }
    while (x as u128 + 1) * (x as u128 + 1) <= n as u128 {
        x += 1;
    }
    x
}
pub fn active(v: &Validator, e: u64) -> bool {
    v.activation_epoch <= e && e < v.exit_epoch
}
pub fn slashable(v: &Validator, e: u64) -> bool {
    !v.slashed && v.activation_epoch <= e && e < v.withdrawable_epoch
}
pub fn has_eth1_cred(v: &Validator) -> bool {
    v.withdrawal_credentials[0] == 1
}
pub fn has_compounding(v: &Validator) -> bool {
    v.withdrawal_credentials[0] == 2
}
pub fn has_exec_cred(v: &Validator) -> bool {
    has_eth1_cred(v) || has_compounding(v)
}
pub fn compute_domain(kind: [u8; 4], version: [u8; 4], root: &H) -> H {
    let fd = fork_data_root(version, root);
    let mut d = [0u8; 32];
    d[..4].copy_from_slice(&kind);
    d[4..].copy_from_slice(&fd[..28]);
    d
}
pub fn fork_data_root(version: [u8; 4], root: &H) -> H {
    let mut v = [0u8; 32];
    v[..4].copy_from_slice(&version);
    hash2(&v, root)
}
pub fn signing_root(object: H, domain: H) -> H {
    hash2(&object, &domain)
}
pub fn u64_root(x: u64) -> H {
    let mut v = [0u8; 32];
    v[..8].copy_from_slice(&x.to_le_bytes());
    v
}

/// Functions that /repo holds a second time, in generated files that its fixes could not touch, still have the
/// defects of known-findings.txt there. The model follows the rules; it notes when such a defect would show and,
/// in a second run, follows the defect, so that exactly that defect is told from any other deviation.
pub mod stale {
    use std::cell::Cell;
    thread_local! {
        static SEEN: Cell<bool> = const { Cell::new(false) };
        static FOLLOW: Cell<bool> = const { Cell::new(false) };
    }
    pub fn differs() -> bool {
        SEEN.set(true);
        FOLLOW.get()
    }
    pub fn start(follow: bool) {
        SEEN.set(false);
        FOLLOW.set(follow);
    }
    pub fn seen() -> bool {
        SEEN.get()
    }
}

/// spec: compute_shuffled_index
pub fn shuffled_index(mut index: u64, count: u64, seed: &H, rounds: u64) -> u64 {
    assert!(index < count);
    for r in 0..rounds {
        let pivot = u64::from_le_bytes(sha(&[seed, &[r as u8]])[..8].try_into().unwrap()) % count;
        let flip = (pivot + count - index) % count;
        let position = index.max(flip);
        let source = sha(&[seed, &[r as u8], &((position / 256) as u32).to_le_bytes()]);
        let byte = source[((position % 256) / 8) as usize];
        if byte >> (position % 8) & 1 == 1 {
            index = flip;
        }
    }
    index
}
/// the whole permutation, hashing each 256-block once per round
pub fn shuffle_map(count: u64, seed: &H, rounds: u64) -> Vec<u64> {
    let mut idx: Vec<u64> = (0..count).collect();
    for r in 0..rounds {
        let pivot = u64::from_le_bytes(sha(&[seed, &[r as u8]])[..8].try_into().unwrap()) % count;
        let blocks: Vec<H> =
            (0..count.div_ceil(256)).map(|b| sha(&[seed, &[r as u8], &(b as u32).to_le_bytes()])).collect();
        for i in idx.iter_mut() {
            let flip = (pivot + count - *i) % count;
            let position = (*i).max(flip);
            let byte = blocks[(position / 256) as usize][((position % 256) / 8) as usize];
            if byte >> (position % 8) & 1 == 1 {
                *i = flip;
            }
        }
    }
    idx
}

impl Spec {
    pub fn new(c: &Cfg, f: Fork) -> Spec {
        Spec { c: c.clone(), f }
    }
    pub fn fp(&self) -> Fp {
        Fp { p: self.c.preset, f: self.f }
    }
    fn k(&self) -> &Consts {
        &self.c.k
    }
    pub fn epoch_at(&self, slot: u64) -> u64 {
        slot / self.k().SLOTS_PER_EPOCH
    }
    pub fn start_slot(&self, e: u64) -> R<u64> {
        e.checked_mul(self.k().SLOTS_PER_EPOCH).ok_or("overflow")
    }
    pub fn cur(&self, s: &State) -> u64 {
        self.epoch_at(s.slot)
    }
    pub fn prev(&self, s: &State) -> u64 {
        self.cur(s).saturating_sub(1)
    }
    pub fn state_root(&self, s: &State) -> H {
        self.fp().root("BeaconState", s)
    }
    pub fn header_root(&self, h: &Header) -> H {
        self.fp().root("BeaconBlockHeader", h)
    }
    pub fn block_root_at(&self, s: &State, slot: u64) -> R<H> {
        let n = self.k().SLOTS_PER_HISTORICAL_ROOT;
        if !(slot < s.slot && s.slot <= slot.checked_add(n).ok_or("overflow")?) {
            return Err("slot out of range");
        }
        Ok(s.block_roots[(slot % n) as usize])
    }
    pub fn block_root(&self, s: &State, e: u64) -> R<H> {
        self.block_root_at(s, self.start_slot(e)?)
    }
    pub fn randao_mix(&self, s: &State, e: u64) -> H {
        s.randao_mixes[(e % self.k().EPOCHS_PER_HISTORICAL_VECTOR) as usize]
    }
    pub fn active_indices(&self, s: &State, e: u64) -> Vec<u64> {
        (0..s.validators.len() as u64).filter(|i| active(&s.validators[*i as usize], e)).collect()
    }
    pub fn seed(&self, s: &State, e: u64, kind: [u8; 4]) -> H {
        let k = self.k();
        let mix = self.randao_mix(s, e.wrapping_add(k.EPOCHS_PER_HISTORICAL_VECTOR).wrapping_sub(k.MIN_SEED_LOOKAHEAD + 1));
        sha(&[&kind, &e.to_le_bytes(), &mix])
    }
    pub fn committee_count(&self, s: &State, e: u64) -> u64 {
        let n = self.active_indices(s, e).len() as u64;
        let k = self.k();
        (n / k.SLOTS_PER_EPOCH / k.TARGET_COMMITTEE_SIZE).min(k.MAX_COMMITTEES_PER_SLOT).max(1)
    }
    pub fn committee(&self, s: &State, slot: u64, index: u64) -> Vec<u64> {
        let e = self.epoch_at(slot);
        let per = self.committee_count(s, e);
        let ind = self.active_indices(s, e);
        let seed = self.seed(s, e, DOMAIN_BEACON_ATTESTER);
        let count = per * self.k().SLOTS_PER_EPOCH;
        let ix = (slot % self.k().SLOTS_PER_EPOCH) * per + index;
        let n = ind.len() as u64;
        let (a, b) = (n * ix / count, n * (ix + 1) / count);
        (a..b).map(|i| ind[shuffled_index(i, n, &seed, self.k().SHUFFLE_ROUND_COUNT) as usize]).collect()
    }
    /// all committees of an epoch: [slot offset][index]
    pub fn committees(&self, s: &State, e: u64) -> Vec<Vec<Vec<u64>>> {
        let per = self.committee_count(s, e);
        let ind = self.active_indices(s, e);
        let seed = self.seed(s, e, DOMAIN_BEACON_ATTESTER);
        let n = ind.len() as u64;
        let map = if n > 0 { shuffle_map(n, &seed, self.k().SHUFFLE_ROUND_COUNT) } else { vec![] };
        let count = per * self.k().SLOTS_PER_EPOCH;
        (0..self.k().SLOTS_PER_EPOCH)
            .map(|so| {
                (0..per)
                    .map(|i| {
                        let ix = so * per + i;
                        (n * ix / count..n * (ix + 1) / count).map(|j| ind[map[j as usize] as usize]).collect()
                    })
                    .collect()
            })
            .collect()
    }
    pub fn proposer_from(&self, s: &State, ind: &[u64], seed: &H) -> R<u64> {
        if ind.is_empty() {
            return Err("no active validator");
        }
        let n = ind.len() as u64;
        let mut i = 0u64;
        loop {
            let c = ind[shuffled_index(i % n, n, seed, self.k().SHUFFLE_ROUND_COUNT) as usize];
            let byte = sha(&[seed, &(i / 32).to_le_bytes()])[(i % 32) as usize] as u64;
            if s.validators[c as usize].effective_balance * 255 >= self.k().MAX_EFFECTIVE_BALANCE * byte {
                return Ok(c);
            }
            i += 1;
            if i > 200_000 {
                return Err("sampling does not end");
            }
        }
    }
    pub fn proposer(&self, s: &State) -> R<u64> {
        let e = self.cur(s);
        let seed = sha(&[&self.seed(s, e, DOMAIN_BEACON_PROPOSER), &s.slot.to_le_bytes()]);
        self.proposer_from(s, &self.active_indices(s, e), &seed)
    }
    pub fn total_balance(&self, s: &State, ix: impl IntoIterator<Item = u64>) -> u64 {
        ix.into_iter().map(|i| s.validators[i as usize].effective_balance).sum::<u64>().max(self.k().EFFECTIVE_BALANCE_INCREMENT)
    }
    pub fn total_active(&self, s: &State) -> u64 {
        self.total_balance(s, self.active_indices(s, self.cur(s)))
    }
    pub fn domain(&self, s: &State, kind: [u8; 4], epoch: u64) -> H {
        let v = if epoch < s.fork.epoch { s.fork.previous_version } else { s.fork.current_version };
        compute_domain(kind, v, &s.genesis_validators_root)
    }
    pub fn increase(&self, s: &mut State, i: u64, d: u64) {
        s.balances[i as usize] += d;
    }
    pub fn decrease(&self, s: &mut State, i: u64, d: u64) {
        s.balances[i as usize] = s.balances[i as usize].saturating_sub(d);
    }
    pub fn activation_exit_epoch(&self, e: u64) -> u64 {
        e + 1 + self.k().MAX_SEED_LOOKAHEAD
    }
    pub fn churn_limit(&self, s: &State) -> u64 {
        (self.active_indices(s, self.cur(s)).len() as u64 / self.c.CHURN_LIMIT_QUOTIENT).max(self.c.MIN_PER_EPOCH_CHURN_LIMIT)
    }
    pub fn activation_churn_limit(&self, s: &State) -> u64 {
        if self.f >= Deneb {
            self.churn_limit(s).min(self.c.MAX_PER_EPOCH_ACTIVATION_CHURN_LIMIT)
        } else {
            self.churn_limit(s)
        }
    }
    pub fn balance_churn_limit(&self, s: &State) -> u64 {
        let churn = (self.total_active(s) / self.c.CHURN_LIMIT_QUOTIENT).max(self.c.MIN_PER_EPOCH_CHURN_LIMIT_ELECTRA);
        churn - churn % self.k().EFFECTIVE_BALANCE_INCREMENT
    }
    pub fn activation_exit_churn_limit(&self, s: &State) -> u64 {
        self.balance_churn_limit(s).min(self.c.MAX_PER_EPOCH_ACTIVATION_EXIT_CHURN_LIMIT)
    }
    pub fn consolidation_churn_limit(&self, s: &State) -> u64 {
        self.balance_churn_limit(s) - self.activation_exit_churn_limit(s)
    }
    pub fn exit_epoch_update_churn(&self, s: &mut State, amount: u64) -> u64 {
        let mut e = s.earliest_exit_epoch.max(self.activation_exit_epoch(self.cur(s)));
        let per = self.activation_exit_churn_limit(s);
        let mut avail = if s.earliest_exit_epoch < e { per } else { s.exit_balance_to_consume };
        if amount > avail {
            let extra = (amount - avail - 1) / per + 1;
            e += extra;
            avail += extra * per;
        }
        s.exit_balance_to_consume = avail - amount;
        s.earliest_exit_epoch = e;
        e
    }
    pub fn consolidation_epoch_update_churn(&self, s: &mut State, amount: u64) -> R<u64> {
        let mut e = s.earliest_consolidation_epoch.max(self.activation_exit_epoch(self.cur(s)));
        let per = self.consolidation_churn_limit(s);
        let mut avail = if s.earliest_consolidation_epoch < e { per } else { s.consolidation_balance_to_consume };
        if amount > avail {
            if per == 0 {
                return Err("no consolidation churn");
            }
            let extra = (amount - avail - 1) / per + 1;
            e += extra;
            avail += extra * per;
        }
        s.consolidation_balance_to_consume = avail - amount;
        s.earliest_consolidation_epoch = e;
        Ok(e)
    }
    pub fn initiate_exit(&self, s: &mut State, i: u64) {
        if s.validators[i as usize].exit_epoch != FAR_FUTURE {
            return;
        }
        let e = if self.f >= Electra {
            let b = s.validators[i as usize].effective_balance;
            self.exit_epoch_update_churn(s, b)
        } else {
            let mut q = s
                .validators
                .iter()
                .map(|v| v.exit_epoch)
                .filter(|e| *e != FAR_FUTURE)
                .chain([self.activation_exit_epoch(self.cur(s))])
                .max()
                .unwrap();
            let n = s.validators.iter().filter(|v| v.exit_epoch == q).count() as u64;
            if n >= self.churn_limit(s) {
                q += 1;
            }
            q
        };
        let v = &mut s.validators[i as usize];
        v.exit_epoch = e;
        v.withdrawable_epoch = e + self.c.MIN_VALIDATOR_WITHDRAWABILITY_DELAY;
    }
    pub fn slash(&self, s: &mut State, i: u64, whistle: Option<u64>) -> R<()> {
        let k = self.k();
        let e = self.cur(s);
        self.initiate_exit(s, i);
        let n = k.EPOCHS_PER_SLASHINGS_VECTOR;
        let v = &mut s.validators[i as usize];
        v.slashed = true;
        v.withdrawable_epoch = v.withdrawable_epoch.max(e + n);
        let eff = v.effective_balance;
        s.slashings[(e % n) as usize] += eff;
        let q = match self.f {
            Phase0 => k.MIN_SLASHING_PENALTY_QUOTIENT,
            Altair => k.MIN_SLASHING_PENALTY_QUOTIENT_ALTAIR,
            Electra => k.MIN_SLASHING_PENALTY_QUOTIENT_ELECTRA,
            _ => k.MIN_SLASHING_PENALTY_QUOTIENT_BELLATRIX,
        };
        self.decrease(s, i, eff / q);
        let p = self.proposer(s)?;
        let w = whistle.unwrap_or(p);
        let wq = if self.f >= Electra { k.WHISTLEBLOWER_REWARD_QUOTIENT_ELECTRA } else { k.WHISTLEBLOWER_REWARD_QUOTIENT };
        let wr = eff / wq;
        let mut pr = if self.f == Phase0 { wr / k.PROPOSER_REWARD_QUOTIENT } else { wr * PROPOSER_WEIGHT / WEIGHT_DENOMINATOR };
        if (Capella..=Deneb).contains(&self.f) && w != p && pr > 0 && stale::differs() {
            pr = 0;
        }
        self.increase(s, p, pr);
        self.increase(s, w, wr - pr);
        Ok(())
    }

    // ---- epoch processing ----
    pub fn matching_source(&self, s: &State, e: u64) -> R<Vec<PendingAttestation>> {
        if e == self.cur(s) {
            Ok(s.current_epoch_attestations.clone())
        } else if e == self.prev(s) {
            Ok(s.previous_epoch_attestations.clone())
        } else {
            Err("epoch")
        }
    }
    pub fn matching_target(&self, s: &State, e: u64) -> R<Vec<PendingAttestation>> {
        let src = self.matching_source(s, e)?;
        let mut out = vec![];
        for a in src {
            if a.data.target.root == self.block_root(s, e)? {
                out.push(a)
            }
        }
        Ok(out)
    }
    pub fn matching_head(&self, s: &State, e: u64) -> R<Vec<PendingAttestation>> {
        let mut out = vec![];
        for a in self.matching_target(s, e)? {
            if a.data.beacon_block_root == self.block_root_at(s, a.data.slot)? {
                out.push(a)
            }
        }
        Ok(out)
    }
    pub fn attesters(&self, s: &State, d: &AttestationData, bits: &[bool]) -> R<BTreeSet<u64>> {
        let c = self.committee(s, d.slot, d.index);
        if bits.len() < c.len() {
            return Err("bits");
        }
        Ok(c.iter().enumerate().filter(|(i, _)| bits[*i]).map(|(_, v)| *v).collect())
    }
    pub fn unslashed_attesting(&self, s: &State, atts: &[PendingAttestation]) -> R<BTreeSet<u64>> {
        let mut o = BTreeSet::new();
        for a in atts {
            o.extend(self.attesters(s, &a.data, &a.aggregation_bits.0)?);
        }
        o.retain(|i| !s.validators[*i as usize].slashed);
        Ok(o)
    }
    pub fn unslashed_participating(&self, s: &State, flag: usize, e: u64) -> R<BTreeSet<u64>> {
        let part = if e == self.cur(s) {
            &s.current_epoch_participation
        } else if e == self.prev(s) {
            &s.previous_epoch_participation
        } else {
            return Err("epoch");
        };
        Ok(self
            .active_indices(s, e)
            .into_iter()
            .filter(|i| part[*i as usize] >> flag & 1 == 1 && !s.validators[*i as usize].slashed)
            .collect())
    }
    pub fn justification(&self, s: &mut State) -> R<()> {
        if self.cur(s) <= 1 {
            return Ok(());
        }
        let (pb, cb) = if self.f == Phase0 {
            let p = self.matching_target(s, self.prev(s))?;
            let c = self.matching_target(s, self.cur(s))?;
            let p = self.unslashed_attesting(s, &p)?;
            let c = self.unslashed_attesting(s, &c)?;
            (self.total_balance(s, p), self.total_balance(s, c))
        } else {
            let p = self.unslashed_participating(s, TIMELY_TARGET, self.prev(s))?;
            let c = self.unslashed_participating(s, TIMELY_TARGET, self.cur(s))?;
            (self.total_balance(s, p), self.total_balance(s, c))
        };
        let total = self.total_active(s);
        let pe = self.prev(s);
        let ce = self.cur(s);
        let old_prev = s.previous_justified_checkpoint;
        let old_cur = s.current_justified_checkpoint;
        s.previous_justified_checkpoint = s.current_justified_checkpoint;
        let b = &s.justification_bits.0;
        let mut nb = vec![false, b[0], b[1], b[2]];
        if pb * 3 >= total * 2 {
            s.current_justified_checkpoint = Checkpoint { epoch: pe, root: self.block_root(s, pe)? };
            nb[1] = true;
        }
        if cb * 3 >= total * 2 {
            s.current_justified_checkpoint = Checkpoint { epoch: ce, root: self.block_root(s, ce)? };
            nb[0] = true;
        }
        s.justification_bits = Bits(nb.clone());
        if nb[1] && nb[2] && nb[3] && old_prev.epoch + 3 == ce {
            s.finalized_checkpoint = old_prev;
        }
        if nb[1] && nb[2] && old_prev.epoch + 2 == ce {
            s.finalized_checkpoint = old_prev;
        }
        if nb[0] && nb[1] && nb[2] && old_cur.epoch + 2 == ce {
            s.finalized_checkpoint = old_cur;
        }
        if nb[0] && nb[1] && old_cur.epoch + 1 == ce {
            s.finalized_checkpoint = old_cur;
        }
        Ok(())
    }
    pub fn finality_delay(&self, s: &State) -> u64 {
        self.prev(s) - s.finalized_checkpoint.epoch
    }
    pub fn leaking(&self, s: &State) -> bool {
        self.finality_delay(s) > self.k().MIN_EPOCHS_TO_INACTIVITY_PENALTY
    }
    pub fn eligible(&self, s: &State) -> Vec<u64> {
        let p = self.prev(s);
        (0..s.validators.len() as u64)
            .filter(|i| {
                let v = &s.validators[*i as usize];
                active(v, p) || (v.slashed && p + 1 < v.withdrawable_epoch)
            })
            .collect()
    }
    pub fn inactivity_updates(&self, s: &mut State) -> R<()> {
        if self.cur(s) == 0 {
            return Ok(());
        }
        let tgt = self.unslashed_participating(s, TIMELY_TARGET, self.prev(s))?;
        let leak = self.leaking(s);
        for i in self.eligible(s) {
            let x = &mut s.inactivity_scores[i as usize];
            if tgt.contains(&i) {
                *x -= 1.min(*x);
            } else {
                *x += self.c.INACTIVITY_SCORE_BIAS;
            }
            if !leak {
                *x -= self.c.INACTIVITY_SCORE_RECOVERY_RATE.min(*x);
            }
        }
        Ok(())
    }
    pub fn base_reward_phase0(&self, s: &State, i: u64) -> u64 {
        let t = self.total_active(s);
        s.validators[i as usize].effective_balance * self.k().BASE_REWARD_FACTOR / isqrt(t) / BASE_REWARDS_PER_EPOCH
    }
    pub fn base_reward_per_increment(&self, s: &State) -> u64 {
        self.k().EFFECTIVE_BALANCE_INCREMENT * self.k().BASE_REWARD_FACTOR / isqrt(self.total_active(s))
    }
    pub fn base_reward(&self, s: &State, i: u64) -> u64 {
        s.validators[i as usize].effective_balance / self.k().EFFECTIVE_BALANCE_INCREMENT * self.base_reward_per_increment(s)
    }
    /// rewards and penalties by component: source, target, head, inclusion delay and inactivity (phase 0), or the
    /// three flags and inactivity
    pub fn deltas(&self, s: &State) -> R<Vec<(Vec<u64>, Vec<u64>)>> {
        let n = s.validators.len();
        let mut deltas: Vec<(Vec<u64>, Vec<u64>)> = vec![];
        let p = self.prev(s);
        let inc = self.k().EFFECTIVE_BALANCE_INCREMENT;
        let total = self.total_active(s);
        let leak = self.leaking(s);
        let el = self.eligible(s);
        if self.f == Phase0 {
            let src = self.matching_source(s, p)?;
            let tgt = self.matching_target(s, p)?;
            let head = self.matching_head(s, p)?;
            let sq = isqrt(total);
            let br = |i: u64| s.validators[i as usize].effective_balance * self.k().BASE_REWARD_FACTOR / sq / BASE_REWARDS_PER_EPOCH;
            let prop = |i: u64| br(i) / self.k().PROPOSER_REWARD_QUOTIENT;
            for atts in [&src, &tgt, &head] {
                let (mut rew, mut pen) = (vec![0u64; n], vec![0u64; n]);
                let set = self.unslashed_attesting(s, atts)?;
                let bal = self.total_balance(s, set.iter().copied());
                for i in &el {
                    if set.contains(i) {
                        if leak {
                            rew[*i as usize] += br(*i);
                        } else {
                            rew[*i as usize] += br(*i) * (bal / inc) / (total / inc);
                        }
                    } else {
                        pen[*i as usize] += br(*i);
                    }
                }
                deltas.push((rew, pen));
            }
            // inclusion delay
            let mut rew = vec![0u64; n];
            let att_sets: Vec<(BTreeSet<u64>, &PendingAttestation)> =
                src.iter().map(|a| Ok((self.attesters(s, &a.data, &a.aggregation_bits.0)?, a))).collect::<R<_>>()?;
            for i in self.unslashed_attesting(s, &src)? {
                let mut best: Option<&PendingAttestation> = None;
                for (set, a) in &att_sets {
                    if set.contains(&i) && best.map_or(true, |b| a.inclusion_delay < b.inclusion_delay) {
                        best = Some(a);
                    }
                }
                let a = best.unwrap();
                rew[a.proposer_index as usize] += prop(i);
                let max = br(i) - prop(i);
                rew[i as usize] += max / a.inclusion_delay;
            }
            deltas.push((rew, vec![0; n]));
            let mut pen = vec![0u64; n];
            if leak {
                let t = self.unslashed_attesting(s, &tgt)?;
                let fd = self.finality_delay(s);
                for i in &el {
                    pen[*i as usize] += BASE_REWARDS_PER_EPOCH * br(*i) - prop(*i);
                    if !t.contains(i) {
                        pen[*i as usize] += s.validators[*i as usize].effective_balance * fd / self.k().INACTIVITY_PENALTY_QUOTIENT;
                    }
                }
            }
            deltas.push((vec![0; n], pen));
            return Ok(deltas);
        }
        let per_inc = self.base_reward_per_increment(s);
        for (flag, w) in WEIGHTS.iter().enumerate() {
            let set = self.unslashed_participating(s, flag, p)?;
            let ui = self.total_balance(s, set.iter().copied()) / inc;
            let ai = total / inc;
            let mut rew = vec![0u64; n];
            let mut pen = vec![0u64; n];
            for i in &el {
                let br = s.validators[*i as usize].effective_balance / inc * per_inc;
                if set.contains(i) {
                    if !leak {
                        rew[*i as usize] += br * w * ui / (ai * WEIGHT_DENOMINATOR);
                    }
                } else if flag != TIMELY_HEAD {
                    pen[*i as usize] += br * w / WEIGHT_DENOMINATOR;
                }
            }
            deltas.push((rew, pen));
        }
        let mut pen = vec![0u64; n];
        let tgt = self.unslashed_participating(s, TIMELY_TARGET, p)?;
        let q = match self.f {
            Altair => self.k().INACTIVITY_PENALTY_QUOTIENT_ALTAIR,
            _ => self.k().INACTIVITY_PENALTY_QUOTIENT_BELLATRIX,
        };
        for i in &el {
            if !tgt.contains(i) {
                let num = s.validators[*i as usize].effective_balance * s.inactivity_scores[*i as usize];
                pen[*i as usize] += num / (self.c.INACTIVITY_SCORE_BIAS * q);
            }
        }
        deltas.push((vec![0; n], pen));
        Ok(deltas)
    }
    /// component by component
    pub fn sum(d: &[(Vec<u64>, Vec<u64>)]) -> (Vec<u64>, Vec<u64>) {
        let n = d[0].0.len();
        let mut o = (vec![0u64; n], vec![0u64; n]);
        for (r, p) in d {
            for i in 0..n {
                o.0[i] += r[i];
                o.1[i] += p[i];
            }
        }
        o
    }
    pub fn rewards(&self, s: &mut State) -> R<()> {
        if self.cur(s) == 0 {
            return Ok(());
        }
        let mut deltas = self.deltas(s)?;
        if self.f == Phase0 {
            deltas = vec![Self::sum(&deltas)];
        }
        for (r, p) in deltas {
            for i in 0..r.len() {
                self.increase(s, i as u64, r[i]);
                self.decrease(s, i as u64, p[i]);
            }
        }
        Ok(())
    }
    pub fn registry(&self, s: &mut State) -> R<()> {
        let e = self.cur(s);
        let k = self.k();
        for i in 0..s.validators.len() {
            let v = &mut s.validators[i];
            let queue = v.activation_eligibility_epoch == FAR_FUTURE
                && if self.f >= Electra {
                    v.effective_balance >= k.MIN_ACTIVATION_BALANCE
                } else {
                    v.effective_balance == k.MAX_EFFECTIVE_BALANCE
                };
            if queue {
                v.activation_eligibility_epoch = e + 1;
            }
            if active(v, e) && v.effective_balance <= self.c.EJECTION_BALANCE {
                self.initiate_exit(s, i as u64);
            }
        }
        let fin = s.finalized_checkpoint.epoch;
        let mut q: Vec<usize> = (0..s.validators.len())
            .filter(|i| {
                let v = &s.validators[*i];
                v.activation_eligibility_epoch <= fin && v.activation_epoch == FAR_FUTURE
            })
            .collect();
        let at = self.activation_exit_epoch(e);
        if self.f < Electra {
            q.sort_by_key(|i| (s.validators[*i].activation_eligibility_epoch, *i));
            q.truncate(self.activation_churn_limit(s) as usize);
        }
        for i in q {
            s.validators[i].activation_epoch = at;
        }
        Ok(())
    }
    pub fn slashings(&self, s: &mut State) -> R<()> {
        let e = self.cur(s);
        let total = self.total_active(s);
        let k = self.k();
        let m = match self.f {
            Phase0 => k.PROPORTIONAL_SLASHING_MULTIPLIER,
            Altair => k.PROPORTIONAL_SLASHING_MULTIPLIER_ALTAIR,
            _ => k.PROPORTIONAL_SLASHING_MULTIPLIER_BELLATRIX,
        };
        let adj = (s.slashings.iter().sum::<u64>() * m).min(total);
        for i in 0..s.validators.len() {
            let v = &s.validators[i];
            if v.slashed && e + k.EPOCHS_PER_SLASHINGS_VECTOR / 2 == v.withdrawable_epoch {
                let inc = k.EFFECTIVE_BALANCE_INCREMENT;
                let pen = v.effective_balance / inc * adj / total * inc;
                self.decrease(s, i as u64, pen);
            }
        }
        Ok(())
    }
    pub fn eth1_reset(&self, s: &mut State) {
        if (self.cur(s) + 1) % self.k().EPOCHS_PER_ETH1_VOTING_PERIOD == 0 {
            s.eth1_data_votes.clear();
        }
    }
    pub fn max_eff(&self, v: &Validator) -> u64 {
        if self.f < Electra {
            self.k().MAX_EFFECTIVE_BALANCE
        } else if has_compounding(v) {
            self.k().MAX_EFFECTIVE_BALANCE_ELECTRA
        } else {
            self.k().MIN_ACTIVATION_BALANCE
        }
    }
    pub fn effective_balances(&self, s: &mut State) {
        let k = self.k();
        let h = k.EFFECTIVE_BALANCE_INCREMENT / k.HYSTERESIS_QUOTIENT;
        let down = h * k.HYSTERESIS_DOWNWARD_MULTIPLIER;
        let up = h * k.HYSTERESIS_UPWARD_MULTIPLIER;
        for i in 0..s.validators.len() {
            let b = s.balances[i];
            let lim = self.max_eff(&s.validators[i]);
            let v = &mut s.validators[i];
            if b + down < v.effective_balance || v.effective_balance + up < b {
                v.effective_balance = (b - b % k.EFFECTIVE_BALANCE_INCREMENT).min(lim);
            }
        }
    }
    pub fn slashings_reset(&self, s: &mut State) {
        let n = self.k().EPOCHS_PER_SLASHINGS_VECTOR;
        let e = self.cur(s) + 1;
        s.slashings[(e % n) as usize] = 0;
    }
    pub fn randao_reset(&self, s: &mut State) {
        let n = self.k().EPOCHS_PER_HISTORICAL_VECTOR;
        let e = self.cur(s);
        s.randao_mixes[((e + 1) % n) as usize] = self.randao_mix(s, e);
    }
    pub fn historical(&self, s: &mut State) {
        let k = self.k();
        let next = self.cur(s) + 1;
        if next % (k.SLOTS_PER_HISTORICAL_ROOT / k.SLOTS_PER_EPOCH) == 0 {
            let n = format!("Vector[Bytes32|{}]", k.SLOTS_PER_HISTORICAL_ROOT);
            let b = self.fp().root_of(&n, &s.block_roots);
            let st = self.fp().root_of(&n, &s.state_roots);
            if self.f >= Capella {
                s.historical_summaries.push(HistoricalSummary { block_summary_root: b, state_summary_root: st });
            } else {
                s.historical_roots.push(hash2(&b, &st));
            }
        }
    }
    pub fn participation_rotate(&self, s: &mut State) {
        if self.f == Phase0 {
            s.previous_epoch_attestations = std::mem::take(&mut s.current_epoch_attestations);
        } else {
            s.previous_epoch_participation = std::mem::take(&mut s.current_epoch_participation);
            s.current_epoch_participation = vec![0; s.validators.len()];
        }
    }
    pub fn next_sync_indices(&self, s: &State) -> R<Vec<u64>> {
        let e = self.cur(s) + 1;
        let ind = self.active_indices(s, e);
        if ind.is_empty() {
            return Err("no active validator");
        }
        let n = ind.len() as u64;
        let seed = self.seed(s, e, DOMAIN_SYNC_COMMITTEE);
        let map = shuffle_map(n, &seed, self.k().SHUFFLE_ROUND_COUNT);
        let mut out = vec![];
        let mut i = 0u64;
        let mut block = [0u8; 32];
        while (out.len() as u64) < self.k().SYNC_COMMITTEE_SIZE {
            let c = ind[map[(i % n) as usize] as usize];
            if i % 32 == 0 {
                block = sha(&[&seed, &(i / 32).to_le_bytes()]);
            }
            let byte = block[(i % 32) as usize] as u64;
            if s.validators[c as usize].effective_balance * 255 >= self.k().MAX_EFFECTIVE_BALANCE * byte {
                out.push(c);
            }
            i += 1;
            if i > 200_000 {
                return Err("sampling does not end");
            }
        }
        Ok(out)
    }
    pub fn next_sync_committee(&self, s: &State) -> R<SyncCommittee> {
        let pubkeys: Vec<B48> = self.next_sync_indices(s)?.iter().map(|i| s.validators[*i as usize].pubkey).collect();
        let aggregate_pubkey = bls::agg_pk(&pubkeys).ok_or("bad key")?;
        Ok(SyncCommittee { pubkeys, aggregate_pubkey })
    }
    pub fn sync_rotate(&self, s: &mut State) -> R<()> {
        if (self.cur(s) + 1) % self.k().EPOCHS_PER_SYNC_COMMITTEE_PERIOD == 0 {
            let n = self.next_sync_committee(s)?;
            s.current_sync_committee = std::mem::replace(&mut s.next_sync_committee, n);
        }
        Ok(())
    }
    pub fn pending_deposits(&self, s: &mut State) {
        let avail = s.deposit_balance_to_consume + self.activation_exit_churn_limit(s);
        let mut done = 0u64;
        let mut n = 0;
        for d in s.pending_balance_deposits.clone() {
            if done + d.amount > avail {
                break;
            }
            self.increase(s, d.index, d.amount);
            done += d.amount;
            n += 1;
        }
        s.pending_balance_deposits.drain(..n);
        s.deposit_balance_to_consume = if s.pending_balance_deposits.is_empty() { 0 } else { avail - done };
    }
    pub fn queue_excess(&self, s: &mut State, i: u64) {
        let b = s.balances[i as usize];
        let m = self.k().MIN_ACTIVATION_BALANCE;
        if b > m {
            s.balances[i as usize] = m;
            s.pending_balance_deposits.push(PendingBalanceDeposit { index: i, amount: b - m });
        }
    }
    pub fn switch_to_compounding(&self, s: &mut State, i: u64) {
        if has_eth1_cred(&s.validators[i as usize]) {
            s.validators[i as usize].withdrawal_credentials[0] = 2;
            self.queue_excess(s, i);
        }
    }
    pub fn active_balance(&self, s: &State, i: u64) -> u64 {
        s.balances[i as usize].min(self.max_eff(&s.validators[i as usize]))
    }
    pub fn pending_consolidations(&self, s: &mut State) {
        let e = self.cur(s);
        let mut n = 0;
        for c in s.pending_consolidations.clone() {
            let src = &s.validators[c.source_index as usize];
            if src.slashed {
                n += 1;
                continue;
            }
            if src.withdrawable_epoch > e {
                break;
            }
            self.switch_to_compounding(s, c.target_index);
            let b = self.active_balance(s, c.source_index);
            self.decrease(s, c.source_index, b);
            self.increase(s, c.target_index, b);
            n += 1;
        }
        s.pending_consolidations.drain(..n);
    }
    pub fn process_epoch(&self, s: &mut State) -> R<()> {
        self.justification(s)?;
        if self.f >= Altair {
            self.inactivity_updates(s)?;
        }
        self.rewards(s)?;
        self.registry(s)?;
        self.slashings(s)?;
        self.eth1_reset(s);
        if self.f >= Electra {
            self.pending_deposits(s);
            self.pending_consolidations(s);
        }
        self.effective_balances(s);
        self.slashings_reset(s);
        self.randao_reset(s);
        self.historical(s);
        self.participation_rotate(s);
        if self.f >= Altair {
            self.sync_rotate(s)?;
        }
        Ok(())
    }
    pub fn process_slot(&self, s: &mut State) {
        let r = self.state_root(s);
        let n = self.k().SLOTS_PER_HISTORICAL_ROOT;
        let i = (s.slot % n) as usize;
        s.state_roots[i] = r;
        if s.latest_block_header.state_root == [0; 32] {
            s.latest_block_header.state_root = r;
        }
        s.block_roots[i] = self.header_root(&s.latest_block_header);
    }
    pub fn process_slots(&self, s: &mut State, to: u64) -> R<()> {
        if s.slot >= to {
            return Err("slot not later");
        }
        while s.slot < to {
            self.process_slot(s);
            if (s.slot + 1) % self.k().SLOTS_PER_EPOCH == 0 {
                self.process_epoch(s)?;
            }
            s.slot += 1;
        }
        Ok(())
    }

    // ---- block processing ----
    pub fn block_header(&self, s: &mut State, b: &Block) -> R<()> {
        if b.slot != s.slot {
            return Err("slot");
        }
        if b.slot <= s.latest_block_header.slot {
            return Err("older than latest");
        }
        if b.proposer_index != self.proposer(s)? {
            return Err("proposer");
        }
        if b.parent_root != self.header_root(&s.latest_block_header) {
            return Err("parent");
        }
        let body_root = self.fp().root("BeaconBlockBody", &b.body);
        s.latest_block_header =
            Header { slot: b.slot, proposer_index: b.proposer_index, parent_root: b.parent_root, state_root: [0; 32], body_root };
        if s.validators[b.proposer_index as usize].slashed {
            return Err("slashed proposer");
        }
        Ok(())
    }
    pub fn randao(&self, s: &mut State, reveal: &B96) -> R<()> {
        let e = self.cur(s);
        let p = self.proposer(s)?;
        let root = signing_root(u64_root(e), self.domain(s, DOMAIN_RANDAO, e));
        if !bls::verify(&s.validators[p as usize].pubkey, &root, reveal) {
            return Err("randao");
        }
        let mut m = self.randao_mix(s, e);
        for (a, b) in m.iter_mut().zip(sha(&[reveal])) {
            *a ^= b;
        }
        s.randao_mixes[(e % self.k().EPOCHS_PER_HISTORICAL_VECTOR) as usize] = m;
        Ok(())
    }
    pub fn eth1(&self, s: &mut State, d: &Eth1Data) -> R<()> {
        s.eth1_data_votes.push(d.clone());
        let n = s.eth1_data_votes.iter().filter(|x| *x == d).count() as u64;
        if n * 2 > self.k().EPOCHS_PER_ETH1_VOTING_PERIOD * self.k().SLOTS_PER_EPOCH {
            s.eth1_data = d.clone();
        }
        Ok(())
    }
    pub fn operations(&self, s: &mut State, b: &Body) -> R<()> {
        let limit = if self.f >= Electra { s.eth1_data.deposit_count.min(s.deposit_receipts_start_index) } else { s.eth1_data.deposit_count };
        let expect = if self.f >= Electra {
            if s.eth1_deposit_index < limit {
                (limit - s.eth1_deposit_index).min(self.k().MAX_DEPOSITS)
            } else {
                0
            }
        } else {
            limit.checked_sub(s.eth1_deposit_index).ok_or("deposit count below index")?.min(self.k().MAX_DEPOSITS)
        };
        if b.deposits.len() as u64 != expect {
            return Err("deposit number");
        }
        for x in &b.proposer_slashings {
            self.proposer_slashing(s, x)?;
        }
        for x in &b.attester_slashings {
            self.attester_slashing(s, x)?;
        }
        for x in &b.attestations {
            self.attestation(s, x)?;
        }
        for x in &b.deposits {
            self.deposit(s, x)?;
        }
        for x in &b.voluntary_exits {
            self.voluntary_exit(s, x)?;
        }
        if self.f >= Capella {
            for x in &b.bls_to_execution_changes {
                self.bls_change(s, x)?;
            }
        }
        if self.f >= Electra {
            for x in &b.execution_payload.withdrawal_requests {
                self.withdrawal_request(s, x)?;
            }
            for x in &b.execution_payload.deposit_receipts {
                self.deposit_receipt(s, x)?;
            }
            for x in &b.consolidations {
                self.consolidation(s, x)?;
            }
        }
        Ok(())
    }
    pub fn proposer_slashing(&self, s: &mut State, x: &ProposerSlashing) -> R<()> {
        let (a, b) = (&x.signed_header_1.message, &x.signed_header_2.message);
        if a.slot != b.slot {
            return Err("slots");
        }
        if a.proposer_index != b.proposer_index {
            return Err("proposers");
        }
        if a == b {
            return Err("same header");
        }
        let v = s.validators.get(a.proposer_index as usize).ok_or("index")?.clone();
        if !slashable(&v, self.cur(s)) {
            return Err("not slashable");
        }
        for h in [&x.signed_header_1, &x.signed_header_2] {
            let d = self.domain(s, DOMAIN_BEACON_PROPOSER, self.epoch_at(h.message.slot));
            if !bls::verify(&v.pubkey, &signing_root(self.header_root(&h.message), d), &h.signature) {
                return Err("signature");
            }
        }
        self.slash(s, a.proposer_index, None)
    }
    pub fn att_data_root(&self, d: &AttestationData) -> H {
        self.fp().root("AttestationData", d)
    }
    pub fn valid_indexed(&self, s: &State, a: &IndexedAttestation) -> bool {
        let ix = &a.attesting_indices;
        if ix.is_empty() || !ix.windows(2).all(|w| w[0] < w[1]) {
            return false;
        }
        if ix.iter().any(|i| *i >= s.validators.len() as u64) {
            return false;
        }
        let keys: Vec<B48> = ix.iter().map(|i| s.validators[*i as usize].pubkey).collect();
        let d = self.domain(s, DOMAIN_BEACON_ATTESTER, a.data.target.epoch);
        bls::fast_aggregate_verify(&keys, &signing_root(self.att_data_root(&a.data), d), &a.signature)
    }
    pub fn attester_slashing(&self, s: &mut State, x: &AttesterSlashing) -> R<()> {
        let (a, b) = (&x.attestation_1, &x.attestation_2);
        let double = a.data != b.data && a.data.target.epoch == b.data.target.epoch;
        let surround = a.data.source.epoch < b.data.source.epoch && b.data.target.epoch < a.data.target.epoch;
        if !double && !surround {
            return Err("not slashable data");
        }
        if !self.valid_indexed(s, a) || !self.valid_indexed(s, b) {
            return Err("invalid attestation");
        }
        let e = self.cur(s);
        let both: BTreeSet<u64> = a.attesting_indices.iter().filter(|i| b.attesting_indices.contains(i)).copied().collect();
        let mut any = false;
        for i in both {
            if slashable(&s.validators[i as usize], e) {
                self.slash(s, i, None)?;
                any = true;
            }
        }
        if !any {
            return Err("nobody slashed");
        }
        Ok(())
    }
    pub fn committee_indices(bits: &Bits) -> Vec<u64> {
        bits.0.iter().enumerate().filter(|(_, b)| **b).map(|(i, _)| i as u64).collect()
    }
    pub fn attestation_attesters(&self, s: &State, a: &Attestation) -> R<BTreeSet<u64>> {
        if self.f < Electra {
            return self.attesters(s, &a.data, &a.aggregation_bits.0);
        }
        let mut out = BTreeSet::new();
        let mut off = 0;
        for i in Self::committee_indices(&a.committee_bits) {
            let c = self.committee(s, a.data.slot, i);
            for (j, v) in c.iter().enumerate() {
                if *a.aggregation_bits.0.get(off + j).ok_or("bits")? {
                    out.insert(*v);
                }
            }
            off += c.len();
        }
        Ok(out)
    }
    pub fn participation_flags(&self, s: &State, d: &AttestationData, delay: u64) -> R<Vec<usize>> {
        let just = if d.target.epoch == self.cur(s) { s.current_justified_checkpoint } else { s.previous_justified_checkpoint };
        let src = d.source == just;
        if !src {
            return Err("source");
        }
        let tgt = d.target.root == self.block_root(s, d.target.epoch)?;
        let head = tgt && d.beacon_block_root == self.block_root_at(s, d.slot)?;
        let k = self.k();
        let mut f = vec![];
        if src && delay <= isqrt(k.SLOTS_PER_EPOCH) {
            f.push(TIMELY_SOURCE);
        }
        if tgt && (self.f >= Deneb || delay <= k.SLOTS_PER_EPOCH) {
            f.push(TIMELY_TARGET);
        }
        if head && delay == k.MIN_ATTESTATION_INCLUSION_DELAY {
            f.push(TIMELY_HEAD);
        }
        Ok(f)
    }
    pub fn attestation(&self, s: &mut State, a: &Attestation) -> R<()> {
        let d = &a.data;
        let k = self.k();
        if d.target.epoch != self.prev(s) && d.target.epoch != self.cur(s) {
            return Err("target epoch");
        }
        if d.target.epoch != self.epoch_at(d.slot) {
            return Err("slot epoch");
        }
        if d.slot + k.MIN_ATTESTATION_INCLUSION_DELAY > s.slot {
            return Err("too early");
        }
        if self.f < Deneb && s.slot > d.slot + k.SLOTS_PER_EPOCH {
            return Err("too late");
        }
        let count = self.committee_count(s, d.target.epoch);
        if self.f < Electra {
            if d.index >= count {
                return Err("index");
            }
            if a.aggregation_bits.0.len() != self.committee(s, d.slot, d.index).len() {
                return Err("bits");
            }
        } else {
            if d.index != 0 {
                return Err("index");
            }
            let mut n = 0;
            for i in Self::committee_indices(&a.committee_bits) {
                if i >= count {
                    return Err("committee bit");
                }
                n += self.committee(s, d.slot, i).len();
            }
            if n != a.aggregation_bits.0.len() {
                return Err("bits");
            }
        }
        let set = |s: &State| self.attestation_attesters(s, a);
        let sig_ok = |s: &State| -> R<BTreeSet<u64>> {
            let ix = set(s)?;
            let ia = IndexedAttestation { attesting_indices: ix.iter().copied().collect(), data: d.clone(), signature: a.signature };
            if !self.valid_indexed(s, &ia) {
                return Err("signature");
            }
            Ok(ix)
        };
        let delay = s.slot - d.slot;
        if self.f == Phase0 {
            let p = PendingAttestation { aggregation_bits: a.aggregation_bits.clone(), data: d.clone(), inclusion_delay: delay, proposer_index: self.proposer(s)? };
            sig_ok(s)?;
            let limit = (k.MAX_ATTESTATIONS * k.SLOTS_PER_EPOCH) as usize;
            let (list, just) = if d.target.epoch == self.cur(s) {
                (&mut s.current_epoch_attestations, s.current_justified_checkpoint)
            } else {
                (&mut s.previous_epoch_attestations, s.previous_justified_checkpoint)
            };
            if d.source != just {
                return Err("source");
            }
            if list.len() >= limit {
                return Err("full");
            }
            list.push(p);
            return Ok(());
        }
        let flags = self.participation_flags(s, d, delay)?;
        let ix = sig_ok(s)?;
        let mut num = 0u64;
        let per_inc = self.base_reward_per_increment(s);
        for i in ix {
            for (f, w) in WEIGHTS.iter().enumerate() {
                let part = if d.target.epoch == self.cur(s) { &mut s.current_epoch_participation } else { &mut s.previous_epoch_participation };
                let cell = part.get_mut(i as usize).ok_or("participation")?;
                if flags.contains(&f) && *cell >> f & 1 == 0 {
                    *cell |= 1 << f;
                    num += s.validators[i as usize].effective_balance / k.EFFECTIVE_BALANCE_INCREMENT * per_inc * w;
                }
            }
        }
        let den = (WEIGHT_DENOMINATOR - PROPOSER_WEIGHT) * WEIGHT_DENOMINATOR / PROPOSER_WEIGHT;
        let p = self.proposer(s)?;
        self.increase(s, p, num / den);
        Ok(())
    }
    pub fn deposit_sig_ok(&self, pubkey: &B48, cred: &B32, amount: u64, sig: &B96) -> bool {
        let m = DepositMessage { pubkey: *pubkey, withdrawal_credentials: *cred, amount };
        let d = compute_domain(DOMAIN_DEPOSIT, self.c.FORK_VERSIONS[0], &[0; 32]);
        bls::verify(pubkey, &signing_root(self.fp().root("DepositMessage", &m), d), sig)
    }
    pub fn apply_deposit(&self, s: &mut State, pubkey: &B48, cred: &B32, amount: u64, sig: &B96) {
        let at = s.validators.iter().position(|v| v.pubkey == *pubkey);
        if self.f >= Electra {
            match at {
                None => {
                    if self.deposit_sig_ok(pubkey, cred, amount, sig) {
                        self.new_validator(s, pubkey, cred, 0);
                        let index = s.validators.len() as u64 - 1;
                        s.pending_balance_deposits.push(PendingBalanceDeposit { index, amount });
                    }
                }
                Some(i) => {
                    s.pending_balance_deposits.push(PendingBalanceDeposit { index: i as u64, amount });
                    if cred[0] == 2 && has_eth1_cred(&s.validators[i]) && self.deposit_sig_ok(pubkey, cred, amount, sig) {
                        self.switch_to_compounding(s, i as u64);
                    }
                }
            }
            return;
        }
        match at {
            None => {
                if self.deposit_sig_ok(pubkey, cred, amount, sig) {
                    self.new_validator(s, pubkey, cred, amount);
                }
            }
            Some(i) => self.increase(s, i as u64, amount),
        }
    }
    fn new_validator(&self, s: &mut State, pubkey: &B48, cred: &B32, amount: u64) {
        let k = self.k();
        s.validators.push(Validator {
            pubkey: *pubkey,
            withdrawal_credentials: *cred,
            effective_balance: (amount - amount % k.EFFECTIVE_BALANCE_INCREMENT).min(k.MAX_EFFECTIVE_BALANCE),
            slashed: false,
            activation_eligibility_epoch: FAR_FUTURE,
            activation_epoch: FAR_FUTURE,
            exit_epoch: FAR_FUTURE,
            withdrawable_epoch: FAR_FUTURE,
        });
        s.balances.push(amount);
        if self.f >= Altair {
            s.previous_epoch_participation.push(0);
            s.current_epoch_participation.push(0);
            s.inactivity_scores.push(0);
        }
    }
    pub fn deposit(&self, s: &mut State, d: &Deposit) -> R<()> {
        let leaf = self.fp().root("DepositData", &d.data);
        if !verify_branch(leaf, &d.proof, 33, s.eth1_deposit_index, s.eth1_data.deposit_root) {
            return Err("proof");
        }
        s.eth1_deposit_index += 1;
        self.apply_deposit(s, &d.data.pubkey, &d.data.withdrawal_credentials, d.data.amount, &d.data.signature);
        Ok(())
    }
    pub fn pending_to_withdraw(&self, s: &State, i: u64) -> u64 {
        s.pending_partial_withdrawals.iter().filter(|w| w.index == i).map(|w| w.amount).sum()
    }
    pub fn exit_domain(&self, s: &State, epoch: u64) -> H {
        if self.f >= Deneb {
            compute_domain(DOMAIN_VOLUNTARY_EXIT, self.c.FORK_VERSIONS[3], &s.genesis_validators_root)
        } else {
            self.domain(s, DOMAIN_VOLUNTARY_EXIT, epoch)
        }
    }
    pub fn voluntary_exit(&self, s: &mut State, x: &SignedVoluntaryExit) -> R<()> {
        let m = &x.message;
        let e = self.cur(s);
        let v = s.validators.get(m.validator_index as usize).ok_or("index")?;
        if !active(v, e) {
            return Err("inactive");
        }
        if v.exit_epoch != FAR_FUTURE {
            return Err("exiting");
        }
        if e < m.epoch {
            return Err("future");
        }
        let mut from = v.activation_epoch;
        if (Altair..=Capella).contains(&self.f) && (e < v.activation_eligibility_epoch.saturating_add(self.c.SHARD_COMMITTEE_PERIOD)) != (e < from + self.c.SHARD_COMMITTEE_PERIOD) && stale::differs() {
            from = v.activation_eligibility_epoch;
        }
        if e < from + self.c.SHARD_COMMITTEE_PERIOD {
            return Err("young");
        }
        if self.f >= Electra && self.pending_to_withdraw(s, m.validator_index) != 0 {
            return Err("pending withdrawal");
        }
        let root = signing_root(self.fp().root("VoluntaryExit", m), self.exit_domain(s, m.epoch));
        if !bls::verify(&v.pubkey, &root, &x.signature) {
            return Err("signature");
        }
        self.initiate_exit(s, m.validator_index);
        Ok(())
    }
    pub fn sync_aggregate(&self, s: &mut State, a: &SyncAggregate) -> R<()> {
        let keys = s.current_sync_committee.pubkeys.clone();
        let part: Vec<B48> = keys.iter().zip(&a.sync_committee_bits.0).filter(|(_, b)| **b).map(|(k, _)| *k).collect();
        let prev_slot = s.slot.max(1) - 1;
        let d = self.domain(s, DOMAIN_SYNC_COMMITTEE, self.epoch_at(prev_slot));
        let root = signing_root(self.block_root_at(s, prev_slot)?, d);
        if !bls::eth_fast_aggregate_verify(&part, &root, &a.sync_committee_signature) {
            return Err("signature");
        }
        let k = self.k();
        let total = self.total_active(s) / k.EFFECTIVE_BALANCE_INCREMENT * self.base_reward_per_increment(s);
        let max = total * SYNC_REWARD_WEIGHT / WEIGHT_DENOMINATOR / k.SLOTS_PER_EPOCH;
        let pr = max / k.SYNC_COMMITTEE_SIZE;
        let prop = pr * PROPOSER_WEIGHT / (WEIGHT_DENOMINATOR - PROPOSER_WEIGHT);
        let p = self.proposer(s)?;
        let pos: BTreeMap<B48, u64> = s.validators.iter().enumerate().rev().map(|(i, v)| (v.pubkey, i as u64)).collect();
        for (key, b) in keys.iter().zip(a.sync_committee_bits.0.clone()) {
            let i = *pos.get(key).ok_or("unknown member")?;
            if b {
                self.increase(s, i, pr);
                self.increase(s, p, prop);
            } else {
                self.decrease(s, i, pr);
            }
        }
        Ok(())
    }
    // ---- execution ----
    pub fn default_header(&self) -> PayloadHeader {
        PayloadHeader { logs_bloom: Raw(vec![0; 256]), ..Default::default() }
    }
    pub fn default_payload(&self) -> Payload {
        Payload { logs_bloom: Raw(vec![0; 256]), ..Default::default() }
    }
    pub fn merge_complete(&self, s: &State) -> bool {
        s.latest_execution_payload_header != self.default_header()
    }
    pub fn execution_enabled(&self, s: &State, b: &Body) -> bool {
        self.merge_complete(s) || b.execution_payload != self.default_payload()
    }
    pub fn timestamp_at(&self, s: &State, slot: u64) -> u64 {
        s.genesis_time + slot * self.c.SECONDS_PER_SLOT
    }
    pub fn payload_header(&self, p: &Payload) -> PayloadHeader {
        let fp = self.fp();
        PayloadHeader {
            parent_hash: p.parent_hash,
            fee_recipient: p.fee_recipient,
            state_root: p.state_root,
            receipts_root: p.receipts_root,
            logs_bloom: p.logs_bloom.clone(),
            prev_randao: p.prev_randao,
            block_number: p.block_number,
            gas_limit: p.gas_limit,
            gas_used: p.gas_used,
            timestamp: p.timestamp,
            extra_data: p.extra_data.clone(),
            base_fee_per_gas: p.base_fee_per_gas,
            block_hash: p.block_hash,
            transactions_root: fp.root_of("List[Transaction|MAX_TRANSACTIONS_PER_PAYLOAD]", &p.transactions),
            withdrawals_root: if self.f >= Capella { fp.root_of("List[Withdrawal|MAX_WITHDRAWALS_PER_PAYLOAD]", &p.withdrawals) } else { [0; 32] },
            blob_gas_used: p.blob_gas_used,
            excess_blob_gas: p.excess_blob_gas,
            deposit_receipts_root: if self.f >= Electra { fp.root_of("List[DepositReceipt|MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD]", &p.deposit_receipts) } else { [0; 32] },
            withdrawal_requests_root: if self.f >= Electra {
                fp.root_of("List[ExecutionLayerWithdrawalRequest|MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD]", &p.withdrawal_requests)
            } else {
                [0; 32]
            },
        }
    }
    pub fn execution_payload(&self, s: &mut State, b: &Body) -> R<()> {
        let p = &b.execution_payload;
        if (self.f >= Capella || self.merge_complete(s)) && p.parent_hash != s.latest_execution_payload_header.block_hash {
            return Err("parent hash");
        }
        if p.prev_randao != self.randao_mix(s, self.cur(s)) {
            return Err("prev randao");
        }
        if p.timestamp != self.timestamp_at(s, s.slot) {
            return Err("timestamp");
        }
        if self.f >= Deneb && b.blob_kzg_commitments.len() as u64 > self.k().MAX_BLOBS_PER_BLOCK {
            return Err("blobs");
        }
        if !self.c.engine {
            return Err("engine");
        }
        s.latest_execution_payload_header = self.payload_header(p);
        Ok(())
    }
    pub fn fully_withdrawable(&self, v: &Validator, bal: u64, e: u64) -> bool {
        let cred = if self.f >= Electra { has_exec_cred(v) } else { has_eth1_cred(v) };
        cred && v.withdrawable_epoch <= e && bal > 0
    }
    pub fn partially_withdrawable(&self, v: &Validator, bal: u64) -> bool {
        let cred = if self.f >= Electra { has_exec_cred(v) } else { has_eth1_cred(v) };
        let m = self.max_eff(v);
        cred && v.effective_balance == m && bal > m
    }
    pub fn expected_withdrawals(&self, s: &State) -> (Vec<Withdrawal>, usize) {
        let k = self.k();
        let e = self.cur(s);
        let mut wi = s.next_withdrawal_index;
        let mut vi = s.next_withdrawal_validator_index;
        let mut out: Vec<Withdrawal> = vec![];
        let addr = |v: &Validator| -> B20 { v.withdrawal_credentials[12..].try_into().unwrap() };
        if self.f >= Electra {
            for w in &s.pending_partial_withdrawals {
                if w.withdrawable_epoch > e || out.len() as u64 == k.MAX_PENDING_PARTIALS_PER_WITHDRAWALS_SWEEP {
                    break;
                }
                let v = &s.validators[w.index as usize];
                let b = s.balances[w.index as usize];
                if v.exit_epoch == FAR_FUTURE && v.effective_balance >= k.MIN_ACTIVATION_BALANCE && b > k.MIN_ACTIVATION_BALANCE {
                    out.push(Withdrawal { index: wi, validator_index: w.index, address: addr(v), amount: (b - k.MIN_ACTIVATION_BALANCE).min(w.amount) });
                    wi += 1;
                }
            }
        }
        let partial = out.len();
        let n = s.validators.len() as u64;
        for _ in 0..n.min(k.MAX_VALIDATORS_PER_WITHDRAWALS_SWEEP) {
            let v = &s.validators[vi as usize];
            let b = s.balances[vi as usize];
            if self.fully_withdrawable(v, b, e) {
                out.push(Withdrawal { index: wi, validator_index: vi, address: addr(v), amount: b });
                wi += 1;
            } else if self.partially_withdrawable(v, b) {
                out.push(Withdrawal { index: wi, validator_index: vi, address: addr(v), amount: b - self.max_eff(v) });
                wi += 1;
            }
            if out.len() as u64 == k.MAX_WITHDRAWALS_PER_PAYLOAD {
                break;
            }
            vi = (vi + 1) % n;
        }
        (out, partial)
    }
    pub fn withdrawals(&self, s: &mut State, p: &Payload) -> R<()> {
        let (exp, partial) = self.expected_withdrawals(s);
        if p.withdrawals != exp {
            return Err("withdrawals");
        }
        for w in &exp {
            self.decrease(s, w.validator_index, w.amount);
        }
        if self.f >= Electra {
            s.pending_partial_withdrawals.drain(..partial);
        }
        let n = s.validators.len() as u64;
        if let Some(l) = exp.last() {
            s.next_withdrawal_index = l.index + 1;
        }
        if exp.len() as u64 == self.k().MAX_WITHDRAWALS_PER_PAYLOAD {
            s.next_withdrawal_validator_index = (exp.last().unwrap().validator_index + 1) % n;
        } else {
            s.next_withdrawal_validator_index = (s.next_withdrawal_validator_index + self.k().MAX_VALIDATORS_PER_WITHDRAWALS_SWEEP) % n;
        }
        Ok(())
    }
    pub fn bls_change(&self, s: &mut State, x: &SignedBlsChange) -> R<()> {
        let m = &x.message;
        let v = s.validators.get(m.validator_index as usize).ok_or("index")?;
        let c = v.withdrawal_credentials;
        if c[0] != 0 || c[1..] != sha(&[&m.from_bls_pubkey])[1..] {
            return Err("credentials");
        }
        let d = compute_domain(DOMAIN_BLS_TO_EXECUTION_CHANGE, self.c.FORK_VERSIONS[0], &s.genesis_validators_root);
        let root = signing_root(self.fp().root("BLSToExecutionChange", m), d);
        if !bls::verify(&m.from_bls_pubkey, &root, &x.signature) {
            return Err("signature");
        }
        let mut n = [0u8; 32];
        n[0] = 1;
        n[12..].copy_from_slice(&m.to_execution_address);
        s.validators[m.validator_index as usize].withdrawal_credentials = n;
        Ok(())
    }
    // ---- electra operations ----
    pub fn withdrawal_request(&self, s: &mut State, r: &WithdrawalRequest) -> R<()> {
        let k = self.k();
        let full = r.amount == 0;
        if s.pending_partial_withdrawals.len() as u64 == k.PENDING_PARTIAL_WITHDRAWALS_LIMIT && !full {
            return Ok(());
        }
        let Some(i) = s.validators.iter().position(|v| v.pubkey == r.validator_pubkey) else { return Ok(()) };
        let v = &s.validators[i];
        let e = self.cur(s);
        if !has_exec_cred(v) || v.withdrawal_credentials[12..] != r.source_address {
            return Ok(());
        }
        if !active(v, e) || v.exit_epoch != FAR_FUTURE || e < v.activation_epoch + self.c.SHARD_COMMITTEE_PERIOD {
            return Ok(());
        }
        let pending = self.pending_to_withdraw(s, i as u64);
        if full {
            if pending == 0 {
                self.initiate_exit(s, i as u64);
            }
            return Ok(());
        }
        let m = k.MIN_ACTIVATION_BALANCE;
        if has_compounding(v) && v.effective_balance >= m && s.balances[i] > m + pending {
            let amount = (s.balances[i] - m - pending).min(r.amount);
            let x = self.exit_epoch_update_churn(s, amount);
            s.pending_partial_withdrawals.push(PendingPartialWithdrawal { index: i as u64, amount, withdrawable_epoch: x + self.c.MIN_VALIDATOR_WITHDRAWABILITY_DELAY });
        }
        Ok(())
    }
    pub fn deposit_receipt(&self, s: &mut State, r: &DepositReceipt) -> R<()> {
        if s.deposit_receipts_start_index == UNSET_DEPOSIT_RECEIPTS_START_INDEX {
            s.deposit_receipts_start_index = r.index;
        }
        self.apply_deposit(s, &r.pubkey, &r.withdrawal_credentials, r.amount, &r.signature);
        Ok(())
    }
    pub fn consolidation(&self, s: &mut State, x: &SignedConsolidation) -> R<()> {
        let k = self.k();
        if s.pending_consolidations.len() as u64 >= k.PENDING_CONSOLIDATIONS_LIMIT {
            return Err("queue full");
        }
        if self.consolidation_churn_limit(s) <= k.MIN_ACTIVATION_BALANCE {
            return Err("churn");
        }
        let m = &x.message;
        if m.source_index == m.target_index {
            return Err("same");
        }
        let a = s.validators.get(m.source_index as usize).ok_or("source")?;
        let b = s.validators.get(m.target_index as usize).ok_or("target")?;
        let e = self.cur(s);
        if !active(a, e) || !active(b, e) {
            return Err("inactive");
        }
        if a.exit_epoch != FAR_FUTURE || b.exit_epoch != FAR_FUTURE {
            return Err("exiting");
        }
        if e < m.epoch {
            return Err("future");
        }
        if !has_exec_cred(a) || !has_exec_cred(b) || a.withdrawal_credentials[12..] != b.withdrawal_credentials[12..] {
            return Err("credentials");
        }
        let d = compute_domain(DOMAIN_CONSOLIDATION, self.c.FORK_VERSIONS[0], &s.genesis_validators_root);
        let root = signing_root(self.fp().root("Consolidation", m), d);
        if !bls::fast_aggregate_verify(&[a.pubkey, b.pubkey], &root, &x.signature) {
            return Err("signature");
        }
        let bal = a.effective_balance;
        let x = self.consolidation_epoch_update_churn(s, bal)?;
        let v = &mut s.validators[m.source_index as usize];
        v.exit_epoch = x;
        v.withdrawable_epoch = x + self.c.MIN_VALIDATOR_WITHDRAWABILITY_DELAY;
        s.pending_consolidations.push(PendingConsolidation { source_index: m.source_index, target_index: m.target_index });
        Ok(())
    }
    // ---- whole blocks ----
    pub fn process_block(&self, s: &mut State, b: &Block) -> R<()> {
        self.block_header(s, b)?;
        if self.f == Bellatrix {
            if self.execution_enabled(s, &b.body) {
                self.execution_payload(s, &b.body)?;
            }
        } else if self.f >= Capella {
            self.withdrawals(s, &b.body.execution_payload)?;
            self.execution_payload(s, &b.body)?;
        }
        self.randao(s, &b.body.randao_reveal)?;
        self.eth1(s, &b.body.eth1_data)?;
        self.operations(s, &b.body)?;
        if self.f >= Altair {
            self.sync_aggregate(s, &b.body.sync_aggregate)?;
        }
        Ok(())
    }
    pub fn block_signing_root(&self, s: &State, b: &Block) -> H {
        signing_root(self.fp().root("BeaconBlock", b), self.domain(s, DOMAIN_BEACON_PROPOSER, self.epoch_at(b.slot)))
    }
    pub fn state_transition(&self, s: &mut State, b: &SignedBlock, validate: bool) -> R<()> {
        self.process_slots(s, b.message.slot)?;
        self.transition_in_slot(s, b, validate)
    }
    pub fn transition_in_slot(&self, s: &mut State, b: &SignedBlock, validate: bool) -> R<()> {
        if validate {
            let p = s.validators.get(b.message.proposer_index as usize).ok_or("proposer index")?.pubkey;
            if !bls::verify(&p, &self.block_signing_root(s, &b.message), &b.signature) {
                return Err("block signature");
            }
        }
        self.process_block(s, &b.message)?;
        if validate && self.state_root(s) != b.message.state_root {
            return Err("state root");
        }
        Ok(())
    }
    // ---- upgrades: self.f is the new fork ----
    pub fn upgrade(&self, pre: &State) -> R<State> {
        let old = Spec::new(&self.c, FORKS[self.f as usize - 1]);
        let e = old.cur(pre);
        let mut s = pre.clone();
        s.fork = ForkRec { previous_version: pre.fork.current_version, current_version: self.c.FORK_VERSIONS[self.f as usize], epoch: e };
        let n = s.validators.len();
        match self.f {
            Altair => {
                s.previous_epoch_participation = vec![0; n];
                s.current_epoch_participation = vec![0; n];
                s.inactivity_scores = vec![0; n];
                s.previous_epoch_attestations.clear();
                s.current_epoch_attestations.clear();
                for a in &pre.previous_epoch_attestations {
                    let flags = self.participation_flags(&s, &a.data, a.inclusion_delay)?;
                    for i in self.attesters(&s, &a.data, &a.aggregation_bits.0)? {
                        for f in &flags {
                            s.previous_epoch_participation[i as usize] |= 1 << f;
                        }
                    }
                }
                let c = self.next_sync_committee(&s)?;
                s.current_sync_committee = c.clone();
                s.next_sync_committee = c;
            }
            Bellatrix => s.latest_execution_payload_header = self.default_header(),
            Capella => {
                s.next_withdrawal_index = 0;
                s.next_withdrawal_validator_index = 0;
                s.historical_summaries = vec![];
            }
            Deneb => {}
            Electra => {
                let m = s.validators.iter().map(|v| v.exit_epoch).filter(|e| *e != FAR_FUTURE).max().unwrap_or(e);
                s.deposit_receipts_start_index = UNSET_DEPOSIT_RECEIPTS_START_INDEX;
                s.deposit_balance_to_consume = 0;
                s.earliest_exit_epoch = m + 1;
                s.earliest_consolidation_epoch = self.activation_exit_epoch(e);
                s.pending_balance_deposits = vec![];
                s.pending_partial_withdrawals = vec![];
                s.pending_consolidations = vec![];
                s.exit_balance_to_consume = self.activation_exit_churn_limit(&s);
                s.consolidation_balance_to_consume = self.consolidation_churn_limit(&s);
                let mut q: Vec<usize> = (0..n).filter(|i| s.validators[*i].activation_epoch == FAR_FUTURE).collect();
                q.sort_by_key(|i| (s.validators[*i].activation_eligibility_epoch, *i));
                for i in q {
                    let b = std::mem::take(&mut s.balances[i]);
                    s.validators[i].effective_balance = 0;
                    s.validators[i].activation_eligibility_epoch = FAR_FUTURE;
                    s.pending_balance_deposits.push(PendingBalanceDeposit { index: i as u64, amount: b });
                }
                for i in 0..n {
                    if has_compounding(&s.validators[i]) {
                        self.queue_excess(&mut s, i as u64);
                    }
                }
            }
            Phase0 => unreachable!(),
        }
        Ok(s)
    }
    // ---- genesis ----
    pub fn genesis(&self, eth1_block_hash: H, eth1_timestamp: u64, deposits: &[Deposit], header: Option<&PayloadHeader>) -> R<State> {
        let k = self.k();
        let v = self.c.FORK_VERSIONS[self.f as usize];
        let mut body = Body::default();
        body.sync_aggregate = SyncAggregate { sync_committee_bits: Bits(vec![false; k.SYNC_COMMITTEE_SIZE as usize]), sync_committee_signature: [0; 96] };
        body.execution_payload = self.default_payload();
        let mut s = State {
            genesis_time: eth1_timestamp + self.c.GENESIS_DELAY,
            fork: ForkRec { previous_version: v, current_version: v, epoch: GENESIS_EPOCH },
            eth1_data: Eth1Data { deposit_root: [0; 32], deposit_count: deposits.len() as u64, block_hash: eth1_block_hash },
            randao_mixes: vec![eth1_block_hash; k.EPOCHS_PER_HISTORICAL_VECTOR as usize],
            ..self.blank()
        };
        s.latest_block_header.body_root = self.fp().root("BeaconBlockBody", &body);
        let leaves: Vec<H> = deposits.iter().map(|d| self.fp().root("DepositData", &d.data)).collect();
        for (i, d) in deposits.iter().enumerate() {
            s.eth1_data.deposit_root = mix_len(merkleize(leaves[..=i].to_vec(), 1 << 32), i + 1);
            self.deposit(&mut s, d)?;
        }
        for d in std::mem::take(&mut s.pending_balance_deposits) {
            self.increase(&mut s, d.index, d.amount);
        }
        for i in 0..s.validators.len() {
            let b = s.balances[i];
            let v = &mut s.validators[i];
            v.effective_balance = (b - b % k.EFFECTIVE_BALANCE_INCREMENT).min(k.MAX_EFFECTIVE_BALANCE);
            if v.effective_balance == k.MAX_EFFECTIVE_BALANCE {
                v.activation_eligibility_epoch = 0;
                v.activation_epoch = 0;
            }
        }
        s.genesis_validators_root = self.fp().root_of("List[Validator|VALIDATOR_REGISTRY_LIMIT]", &s.validators);
        if self.f >= Altair {
            let c = self.next_sync_committee(&s)?;
            s.current_sync_committee = c.clone();
            s.next_sync_committee = c;
        }
        if self.f >= Bellatrix {
            if let Some(h) = header {
                s.latest_execution_payload_header = h.clone();
            }
        }
        if self.f >= Electra {
            s.deposit_receipts_start_index = UNSET_DEPOSIT_RECEIPTS_START_INDEX;
        }
        Ok(s)
    }
    pub fn valid_genesis(&self, s: &State) -> bool {
        s.genesis_time >= self.c.MIN_GENESIS_TIME && self.active_indices(s, 0).len() as u64 >= self.c.MIN_GENESIS_ACTIVE_VALIDATOR_COUNT
    }
    /// zero state with vectors of the right sizes
    pub fn blank(&self) -> State {
        let k = self.k();
        let sc = SyncCommittee { pubkeys: vec![[0; 48]; k.SYNC_COMMITTEE_SIZE as usize], aggregate_pubkey: [0; 48] };
        State {
            block_roots: vec![[0; 32]; k.SLOTS_PER_HISTORICAL_ROOT as usize],
            state_roots: vec![[0; 32]; k.SLOTS_PER_HISTORICAL_ROOT as usize],
            randao_mixes: vec![[0; 32]; k.EPOCHS_PER_HISTORICAL_VECTOR as usize],
            slashings: vec![0; k.EPOCHS_PER_SLASHINGS_VECTOR as usize],
            justification_bits: Bits(vec![false; 4]),
            current_sync_committee: sc.clone(),
            next_sync_committee: sc,
            latest_execution_payload_header: self.default_header(),
            ..Default::default()
        }
    }
}

//! Typed model objects. Each struct holds the union of the fields of all forks; the schema of the fork
//! decides which of them are encoded.
use crate::{cfg::*, schema, ssz::*};

pub trait Val: Sized {
    fn to_v(&self, t: &Ty) -> Value;
    fn from_v(v: &Value, t: &Ty) -> Self;
}
impl Val for u64 {
    fn to_v(&self, _: &Ty) -> Value {
        Value::U(*self)
    }
    fn from_v(v: &Value, _: &Ty) -> Self {
        v.u()
    }
}
impl Val for u8 {
    fn to_v(&self, _: &Ty) -> Value {
        Value::U(*self as u64)
    }
    fn from_v(v: &Value, _: &Ty) -> Self {
        v.u() as u8
    }
}
impl Val for bool {
    fn to_v(&self, _: &Ty) -> Value {
        Value::Bool(*self)
    }
    fn from_v(v: &Value, _: &Ty) -> Self {
        match v {
            Value::Bool(b) => *b,
            _ => panic!(),
        }
    }
}
impl<const N: usize> Val for [u8; N] {
    fn to_v(&self, t: &Ty) -> Value {
        match t {
            Ty::U256 => {
                let mut a = [0u8; 32];
                a.copy_from_slice(&self[..]);
                Value::U256(a)
            }
            _ => Value::Bytes(self.to_vec()),
        }
    }
    fn from_v(v: &Value, _: &Ty) -> Self {
        let mut a = [0u8; N];
        match v {
            Value::U256(b) => a.copy_from_slice(&b[..]),
            Value::Bytes(b) => a.copy_from_slice(b),
            _ => panic!(),
        }
        a
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Raw(pub Vec<u8>);
impl Val for Raw {
    fn to_v(&self, _: &Ty) -> Value {
        Value::Bytes(self.0.clone())
    }
    fn from_v(v: &Value, _: &Ty) -> Self {
        match v {
            Value::Bytes(b) => Raw(b.clone()),
            _ => panic!(),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Bits(pub Vec<bool>);
impl Val for Bits {
    fn to_v(&self, t: &Ty) -> Value {
        let mut b = self.0.clone();
        if let Ty::Bitvector(n) = t {
            b.resize(*n, false);
        }
        Value::Bits(b)
    }
    fn from_v(v: &Value, _: &Ty) -> Self {
        match v {
            Value::Bits(b) => Bits(b.clone()),
            _ => panic!(),
        }
    }
}
impl<T: Val> Val for Vec<T> {
    fn to_v(&self, t: &Ty) -> Value {
        Value::Seq(self.iter().map(|x| x.to_v(t.elem())).collect())
    }
    fn from_v(v: &Value, t: &Ty) -> Self {
        v.seq().iter().map(|x| T::from_v(x, t.elem())).collect()
    }
}

macro_rules! model {
    ($($(#[$m:meta])* struct $name:ident { $($f:ident : $t:ty,)* })*) => { $(
        #[derive(Clone, Debug, PartialEq, Eq)]
        $(#[$m])*
        pub struct $name { $(pub $f: $t,)* }
        impl Val for $name {
            fn to_v(&self, t: &Ty) -> Value {
                Value::Cont(t.cont().fields.iter().map(|(n, ft)| match n.as_str() {
                    $(stringify!($f) => self.$f.to_v(ft),)*
                    _ => panic!("{} has no {}", stringify!($name), n),
                }).collect())
            }
            fn from_v(v: &Value, t: &Ty) -> Self {
                let mut o = $name::default();
                for ((n, ft), x) in t.cont().fields.iter().zip(v.fields()) {
                    match n.as_str() {
                        $(stringify!($f) => o.$f = Val::from_v(x, ft),)*
                        _ => panic!("{} has no {}", stringify!($name), n),
                    }
                }
                o
            }
        }
    )* };
}
macro_rules! dflt { ($($name:ident)*) => { $(impl Default for $name { fn default() -> Self { $name::zero() } })* } }

pub type B20 = [u8; 20];
pub type B32 = [u8; 32];
pub type B48 = [u8; 48];
pub type B96 = [u8; 96];

model! {
    #[derive(Default)] struct ForkRec { previous_version: [u8; 4], current_version: [u8; 4], epoch: u64, }
    #[derive(Default, Copy)] struct Checkpoint { epoch: u64, root: B32, }
    struct Validator { pubkey: B48, withdrawal_credentials: B32, effective_balance: u64, slashed: bool, activation_eligibility_epoch: u64, activation_epoch: u64, exit_epoch: u64, withdrawable_epoch: u64, }
    #[derive(Default)] struct AttestationData { slot: u64, index: u64, beacon_block_root: B32, source: Checkpoint, target: Checkpoint, }
    struct IndexedAttestation { attesting_indices: Vec<u64>, data: AttestationData, signature: B96, }
    #[derive(Default)] struct PendingAttestation { aggregation_bits: Bits, data: AttestationData, inclusion_delay: u64, proposer_index: u64, }
    #[derive(Default)] struct Eth1Data { deposit_root: B32, deposit_count: u64, block_hash: B32, }
    struct DepositMessage { pubkey: B48, withdrawal_credentials: B32, amount: u64, }
    struct DepositData { pubkey: B48, withdrawal_credentials: B32, amount: u64, signature: B96, }
    #[derive(Default)] struct Header { slot: u64, proposer_index: u64, parent_root: B32, state_root: B32, body_root: B32, }
    struct SignedHeader { message: Header, signature: B96, }
    #[derive(Default)] struct AttesterSlashing { attestation_1: IndexedAttestation, attestation_2: IndexedAttestation, }
    #[derive(Default)] struct ProposerSlashing { signed_header_1: SignedHeader, signed_header_2: SignedHeader, }
    struct Attestation { aggregation_bits: Bits, data: AttestationData, committee_bits: Bits, signature: B96, }
    #[derive(Default)] struct Deposit { proof: Vec<B32>, data: DepositData, }
    #[derive(Default)] struct VoluntaryExit { epoch: u64, validator_index: u64, }
    struct SignedVoluntaryExit { message: VoluntaryExit, signature: B96, }
    struct SyncAggregate { sync_committee_bits: Bits, sync_committee_signature: B96, }
    struct SyncCommittee { pubkeys: Vec<B48>, aggregate_pubkey: B48, }
    #[derive(Default)] struct Withdrawal { index: u64, validator_index: u64, address: B20, amount: u64, }
    struct BlsChange { validator_index: u64, from_bls_pubkey: B48, to_execution_address: B20, }
    struct SignedBlsChange { message: BlsChange, signature: B96, }
    #[derive(Default)] struct HistoricalSummary { block_summary_root: B32, state_summary_root: B32, }
    struct DepositReceipt { pubkey: B48, withdrawal_credentials: B32, amount: u64, signature: B96, index: u64, }
    #[derive(Default)] struct PendingBalanceDeposit { index: u64, amount: u64, }
    #[derive(Default)] struct PendingPartialWithdrawal { index: u64, amount: u64, withdrawable_epoch: u64, }
    #[derive(Default)] struct PendingConsolidation { source_index: u64, target_index: u64, }
    struct WithdrawalRequest { source_address: B20, validator_pubkey: B48, amount: u64, }
    #[derive(Default)] struct Consolidation { source_index: u64, target_index: u64, epoch: u64, }
    struct SignedConsolidation { message: Consolidation, signature: B96, }
    struct Payload { parent_hash: B32, fee_recipient: B20, state_root: B32, receipts_root: B32, logs_bloom: Raw, prev_randao: B32, block_number: u64, gas_limit: u64, gas_used: u64, timestamp: u64, extra_data: Raw, base_fee_per_gas: B32, block_hash: B32, transactions: Vec<Raw>, withdrawals: Vec<Withdrawal>, blob_gas_used: u64, excess_blob_gas: u64, deposit_receipts: Vec<DepositReceipt>, withdrawal_requests: Vec<WithdrawalRequest>, }
    struct PayloadHeader { parent_hash: B32, fee_recipient: B20, state_root: B32, receipts_root: B32, logs_bloom: Raw, prev_randao: B32, block_number: u64, gas_limit: u64, gas_used: u64, timestamp: u64, extra_data: Raw, base_fee_per_gas: B32, block_hash: B32, transactions_root: B32, withdrawals_root: B32, blob_gas_used: u64, excess_blob_gas: u64, deposit_receipts_root: B32, withdrawal_requests_root: B32, }
    struct Body { randao_reveal: B96, eth1_data: Eth1Data, graffiti: B32, proposer_slashings: Vec<ProposerSlashing>, attester_slashings: Vec<AttesterSlashing>, attestations: Vec<Attestation>, deposits: Vec<Deposit>, voluntary_exits: Vec<SignedVoluntaryExit>, sync_aggregate: SyncAggregate, execution_payload: Payload, bls_to_execution_changes: Vec<SignedBlsChange>, blob_kzg_commitments: Vec<B48>, consolidations: Vec<SignedConsolidation>, }
    #[derive(Default)] struct Block { slot: u64, proposer_index: u64, parent_root: B32, state_root: B32, body: Body, }
    struct SignedBlock { message: Block, signature: B96, }
    #[derive(Default)] struct State {
        genesis_time: u64, genesis_validators_root: B32, slot: u64, fork: ForkRec, latest_block_header: Header,
        block_roots: Vec<B32>, state_roots: Vec<B32>, historical_roots: Vec<B32>, eth1_data: Eth1Data, eth1_data_votes: Vec<Eth1Data>, eth1_deposit_index: u64,
        validators: Vec<Validator>, balances: Vec<u64>, randao_mixes: Vec<B32>, slashings: Vec<u64>,
        previous_epoch_attestations: Vec<PendingAttestation>, current_epoch_attestations: Vec<PendingAttestation>,
        previous_epoch_participation: Vec<u8>, current_epoch_participation: Vec<u8>,
        justification_bits: Bits, previous_justified_checkpoint: Checkpoint, current_justified_checkpoint: Checkpoint, finalized_checkpoint: Checkpoint,
        inactivity_scores: Vec<u64>, current_sync_committee: SyncCommittee, next_sync_committee: SyncCommittee,
        latest_execution_payload_header: PayloadHeader, next_withdrawal_index: u64, next_withdrawal_validator_index: u64, historical_summaries: Vec<HistoricalSummary>,
        deposit_receipts_start_index: u64, deposit_balance_to_consume: u64, exit_balance_to_consume: u64, earliest_exit_epoch: u64, consolidation_balance_to_consume: u64, earliest_consolidation_epoch: u64,
        pending_balance_deposits: Vec<PendingBalanceDeposit>, pending_partial_withdrawals: Vec<PendingPartialWithdrawal>, pending_consolidations: Vec<PendingConsolidation>,
    }
}
macro_rules! zeros { ($($name:ident { $($f:ident),* } )*) => { $(impl $name { fn zero() -> Self { $name { $($f: zero_of()),* } } })* } }
trait ZeroOf {
    fn z() -> Self;
}
fn zero_of<T: ZeroOf>() -> T {
    T::z()
}
impl<const N: usize> ZeroOf for [u8; N] {
    fn z() -> Self {
        [0; N]
    }
}
macro_rules! zd { ($($t:ty),*) => { $(impl ZeroOf for $t { fn z() -> Self { <$t>::default() } })* } }
zd!(u64, bool, Raw, Bits, AttestationData, Header, VoluntaryExit, BlsChange, Consolidation, Block, Eth1Data, SyncAggregate, Payload);
impl<T> ZeroOf for Vec<T> {
    fn z() -> Self {
        vec![]
    }
}
zeros! {
    Validator { pubkey, withdrawal_credentials, effective_balance, slashed, activation_eligibility_epoch, activation_epoch, exit_epoch, withdrawable_epoch }
    IndexedAttestation { attesting_indices, data, signature }
    DepositMessage { pubkey, withdrawal_credentials, amount }
    DepositData { pubkey, withdrawal_credentials, amount, signature }
    SignedHeader { message, signature }
    Attestation { aggregation_bits, data, committee_bits, signature }
    SignedVoluntaryExit { message, signature }
    SyncAggregate { sync_committee_bits, sync_committee_signature }
    SyncCommittee { pubkeys, aggregate_pubkey }
    BlsChange { validator_index, from_bls_pubkey, to_execution_address }
    SignedBlsChange { message, signature }
    DepositReceipt { pubkey, withdrawal_credentials, amount, signature, index }
    WithdrawalRequest { source_address, validator_pubkey, amount }
    SignedConsolidation { message, signature }
    Payload { parent_hash, fee_recipient, state_root, receipts_root, logs_bloom, prev_randao, block_number, gas_limit, gas_used, timestamp, extra_data, base_fee_per_gas, block_hash, transactions, withdrawals, blob_gas_used, excess_blob_gas, deposit_receipts, withdrawal_requests }
    PayloadHeader { parent_hash, fee_recipient, state_root, receipts_root, logs_bloom, prev_randao, block_number, gas_limit, gas_used, timestamp, extra_data, base_fee_per_gas, block_hash, transactions_root, withdrawals_root, blob_gas_used, excess_blob_gas, deposit_receipts_root, withdrawal_requests_root }
    Body { randao_reveal, eth1_data, graffiti, proposer_slashings, attester_slashings, attestations, deposits, voluntary_exits, sync_aggregate, execution_payload, bls_to_execution_changes, blob_kzg_commitments, consolidations }
    SignedBlock { message, signature }
}
dflt!(Validator IndexedAttestation DepositMessage DepositData SignedHeader Attestation SignedVoluntaryExit SyncAggregate SyncCommittee BlsChange SignedBlsChange DepositReceipt WithdrawalRequest SignedConsolidation Payload PayloadHeader Body SignedBlock);

/// a preset and fork, with typed encode/decode/root
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Fp {
    pub p: Preset,
    pub f: Fork,
}
impl Fp {
    pub fn ty(&self, name: &str) -> Ty {
        schema::ty(self.p, self.f, name)
    }
    pub fn enc<T: Val>(&self, name: &str, x: &T) -> Vec<u8> {
        let t = self.ty(name);
        encode(&x.to_v(&t), &t)
    }
    pub fn dec<T: Val>(&self, name: &str, b: &[u8]) -> Dec<T> {
        let t = self.ty(name);
        Ok(T::from_v(&decode(b, &t)?, &t))
    }
    pub fn root<T: Val>(&self, name: &str, x: &T) -> H {
        let t = self.ty(name);
        htr(&x.to_v(&t), &t)
    }
    /// root of a type given in schema notation
    pub fn root_of<T: Val>(&self, notation: &str, x: &T) -> H {
        let t = schema::parse(self.p, self.f, notation);
        htr(&x.to_v(&t), &t)
    }
}

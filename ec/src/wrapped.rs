//! Every accessor of the fork-agnostic containers (minimal preset). Written by tools/wrapped.py.
use crate::containers::settle;
use crate::*;
use ec::types;

pub enum Shown {
    Bytes(Vec<u8>),
    Absent,
    /// a fork-agnostic view: its fork, its content, its root
    View(String, Vec<u8>, H),
}
pub fn bytes<T: ssz_rs::Serialize>(x: &T) -> Vec<u8> {
    let mut b = vec![];
    x.serialize(&mut b).expect("serialize");
    b
}
pub fn root<T: ssz_rs::HashTreeRoot>(x: &T) -> H {
    let r = x.hash_tree_root().expect("hash_tree_root");
    let mut h = [0; 32];
    h.copy_from_slice(r.as_ref());
    h
}
pub trait Show {
    fn show(self) -> Shown;
}
impl<T: ssz_rs::Serialize> Show for &T {
    fn show(self) -> Shown {
        Shown::Bytes(bytes(self))
    }
}
impl<T: Show> Show for Option<T> {
    fn show(self) -> Shown {
        self.map(Show::show).unwrap_or(Shown::Absent)
    }
}
macro_rules! plain {
    ($($t:ty)*) => { $( impl Show for $t { fn show(self) -> Shown { Shown::Bytes(bytes(&self)) } } )* };
}
plain!(u64 usize ec::primitives::Root);
pub trait Put {
    /// store a value read from SSZ; false when there is no such field
    fn put(self, b: &[u8]) -> bool;
}
impl<T: ssz_rs::Deserialize> Put for &mut T {
    fn put(self, b: &[u8]) -> bool {
        *self = T::deserialize(b).expect("deserialize");
        true
    }
}
impl<T: Put> Put for Option<T> {
    fn put(self, b: &[u8]) -> bool {
        self.is_some_and(|x| x.put(b))
    }
}
#[derive(Default)]
pub struct Report {
    /// by view ("value", "shared", "exclusive")
    pub version: Vec<(&'static str, String)>,
    pub root: Vec<(&'static str, H)>,
    pub reads: Vec<(&'static str, &'static str, Shown)>,
    /// forks for which a conversion gave a value, and that value
    pub conversions: Vec<(&'static str, &'static str, Vec<u8>)>,
    pub ssz: Vec<u8>,
    pub json: String,
    /// (view, whether the field was there, the value afterwards)
    pub writes: Vec<(&'static str, bool, Vec<u8>)>,
    /// fork and content of the JSON read back
    pub back: Vec<Result<(String, Vec<u8>), String>>,
}
pub struct Wrap {
    pub name: &'static str,
    pub from: Fork,
    /// (fork, value, field to write and its new value)
    pub run: fn(Fork, &[u8], &str, &[u8]) -> Got<Report>,
    /// the mainnet form: fork, SSZ, root, JSON, and fork and content of the JSON read back
    pub large: fn(Fork, &[u8]) -> Got<(String, Vec<u8>, H, String, (String, Vec<u8>))>,
}
impl<'a, const SLOTS_PER_HISTORICAL_ROOT: usize, const HISTORICAL_ROOTS_LIMIT: usize, const ETH1_DATA_VOTES_BOUND: usize, const VALIDATOR_REGISTRY_LIMIT: usize, const EPOCHS_PER_HISTORICAL_VECTOR: usize, const EPOCHS_PER_SLASHINGS_VECTOR: usize, const MAX_VALIDATORS_PER_COMMITTEE: usize, const PENDING_ATTESTATIONS_BOUND: usize, const SYNC_COMMITTEE_SIZE: usize, const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize> Show for types::BeaconStateRef<'a, SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES> {
    fn show(self) -> Shown {
        let (v, r) = (format!("{:?}", self.version()), root(&self));
        let b = match &self { types::BeaconStateRef::Phase0(x) => bytes(*x), types::BeaconStateRef::Altair(x) => bytes(*x), types::BeaconStateRef::Bellatrix(x) => bytes(*x), types::BeaconStateRef::Capella(x) => bytes(*x), types::BeaconStateRef::Deneb(x) => bytes(*x), };
        Shown::View(v, b, r)
    }
}
impl<'a, const SLOTS_PER_HISTORICAL_ROOT: usize, const HISTORICAL_ROOTS_LIMIT: usize, const ETH1_DATA_VOTES_BOUND: usize, const VALIDATOR_REGISTRY_LIMIT: usize, const EPOCHS_PER_HISTORICAL_VECTOR: usize, const EPOCHS_PER_SLASHINGS_VECTOR: usize, const MAX_VALIDATORS_PER_COMMITTEE: usize, const PENDING_ATTESTATIONS_BOUND: usize, const SYNC_COMMITTEE_SIZE: usize, const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize> Show for types::BeaconStateRefMut<'a, SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES> {
    fn show(self) -> Shown {
        let (v, r) = (format!("{:?}", self.version()), root(&self));
        let b = match &self { types::BeaconStateRefMut::Phase0(x) => bytes(*x), types::BeaconStateRefMut::Altair(x) => bytes(*x), types::BeaconStateRefMut::Bellatrix(x) => bytes(*x), types::BeaconStateRefMut::Capella(x) => bytes(*x), types::BeaconStateRefMut::Deneb(x) => bytes(*x), };
        Shown::View(v, b, r)
    }
}
impl<'a, const SLOTS_PER_HISTORICAL_ROOT: usize, const HISTORICAL_ROOTS_LIMIT: usize, const ETH1_DATA_VOTES_BOUND: usize, const VALIDATOR_REGISTRY_LIMIT: usize, const EPOCHS_PER_HISTORICAL_VECTOR: usize, const EPOCHS_PER_SLASHINGS_VECTOR: usize, const MAX_VALIDATORS_PER_COMMITTEE: usize, const PENDING_ATTESTATIONS_BOUND: usize, const SYNC_COMMITTEE_SIZE: usize, const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize> Put for types::BeaconStateRefMut<'a, SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES> {
    fn put(self, b: &[u8]) -> bool {
        match self { types::BeaconStateRefMut::Phase0(x) => x.put(b), types::BeaconStateRefMut::Altair(x) => x.put(b), types::BeaconStateRefMut::Bellatrix(x) => x.put(b), types::BeaconStateRefMut::Capella(x) => x.put(b), types::BeaconStateRefMut::Deneb(x) => x.put(b), }
    }
}
impl<'a, const MAX_PROPOSER_SLASHINGS: usize, const MAX_VALIDATORS_PER_COMMITTEE: usize, const MAX_ATTESTER_SLASHINGS: usize, const MAX_ATTESTATIONS: usize, const MAX_DEPOSITS: usize, const MAX_VOLUNTARY_EXITS: usize, const SYNC_COMMITTEE_SIZE: usize, const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize, const MAX_BYTES_PER_TRANSACTION: usize, const MAX_TRANSACTIONS_PER_PAYLOAD: usize, const MAX_WITHDRAWALS_PER_PAYLOAD: usize, const MAX_BLS_TO_EXECUTION_CHANGES: usize, const MAX_BLOB_COMMITMENTS_PER_BLOCK: usize> Show for types::BeaconBlockRef<'a, MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK> {
    fn show(self) -> Shown {
        let (v, r) = (format!("{:?}", self.version()), root(&self));
        let b = match &self { types::BeaconBlockRef::Phase0(x) => bytes(*x), types::BeaconBlockRef::Altair(x) => bytes(*x), types::BeaconBlockRef::Bellatrix(x) => bytes(*x), types::BeaconBlockRef::Capella(x) => bytes(*x), types::BeaconBlockRef::Deneb(x) => bytes(*x), };
        Shown::View(v, b, r)
    }
}
impl<'a, const MAX_PROPOSER_SLASHINGS: usize, const MAX_VALIDATORS_PER_COMMITTEE: usize, const MAX_ATTESTER_SLASHINGS: usize, const MAX_ATTESTATIONS: usize, const MAX_DEPOSITS: usize, const MAX_VOLUNTARY_EXITS: usize, const SYNC_COMMITTEE_SIZE: usize, const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize, const MAX_BYTES_PER_TRANSACTION: usize, const MAX_TRANSACTIONS_PER_PAYLOAD: usize, const MAX_WITHDRAWALS_PER_PAYLOAD: usize, const MAX_BLS_TO_EXECUTION_CHANGES: usize, const MAX_BLOB_COMMITMENTS_PER_BLOCK: usize> Show for types::BeaconBlockRefMut<'a, MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK> {
    fn show(self) -> Shown {
        let (v, r) = (format!("{:?}", self.version()), root(&self));
        let b = match &self { types::BeaconBlockRefMut::Phase0(x) => bytes(*x), types::BeaconBlockRefMut::Altair(x) => bytes(*x), types::BeaconBlockRefMut::Bellatrix(x) => bytes(*x), types::BeaconBlockRefMut::Capella(x) => bytes(*x), types::BeaconBlockRefMut::Deneb(x) => bytes(*x), };
        Shown::View(v, b, r)
    }
}
impl<'a, const MAX_PROPOSER_SLASHINGS: usize, const MAX_VALIDATORS_PER_COMMITTEE: usize, const MAX_ATTESTER_SLASHINGS: usize, const MAX_ATTESTATIONS: usize, const MAX_DEPOSITS: usize, const MAX_VOLUNTARY_EXITS: usize, const SYNC_COMMITTEE_SIZE: usize, const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize, const MAX_BYTES_PER_TRANSACTION: usize, const MAX_TRANSACTIONS_PER_PAYLOAD: usize, const MAX_WITHDRAWALS_PER_PAYLOAD: usize, const MAX_BLS_TO_EXECUTION_CHANGES: usize, const MAX_BLOB_COMMITMENTS_PER_BLOCK: usize> Put for types::BeaconBlockRefMut<'a, MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK> {
    fn put(self, b: &[u8]) -> bool {
        match self { types::BeaconBlockRefMut::Phase0(x) => x.put(b), types::BeaconBlockRefMut::Altair(x) => x.put(b), types::BeaconBlockRefMut::Bellatrix(x) => x.put(b), types::BeaconBlockRefMut::Capella(x) => x.put(b), types::BeaconBlockRefMut::Deneb(x) => x.put(b), }
    }
}
impl<'a, const MAX_PROPOSER_SLASHINGS: usize, const MAX_VALIDATORS_PER_COMMITTEE: usize, const MAX_ATTESTER_SLASHINGS: usize, const MAX_ATTESTATIONS: usize, const MAX_DEPOSITS: usize, const MAX_VOLUNTARY_EXITS: usize, const SYNC_COMMITTEE_SIZE: usize, const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize, const MAX_BYTES_PER_TRANSACTION: usize, const MAX_TRANSACTIONS_PER_PAYLOAD: usize, const MAX_WITHDRAWALS_PER_PAYLOAD: usize, const MAX_BLS_TO_EXECUTION_CHANGES: usize, const MAX_BLOB_COMMITMENTS_PER_BLOCK: usize> Show for types::BeaconBlockBodyRef<'a, MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK> {
    fn show(self) -> Shown {
        let (v, r) = (format!("{:?}", self.version()), root(&self));
        let b = match &self { types::BeaconBlockBodyRef::Phase0(x) => bytes(*x), types::BeaconBlockBodyRef::Altair(x) => bytes(*x), types::BeaconBlockBodyRef::Bellatrix(x) => bytes(*x), types::BeaconBlockBodyRef::Capella(x) => bytes(*x), types::BeaconBlockBodyRef::Deneb(x) => bytes(*x), };
        Shown::View(v, b, r)
    }
}
impl<'a, const MAX_PROPOSER_SLASHINGS: usize, const MAX_VALIDATORS_PER_COMMITTEE: usize, const MAX_ATTESTER_SLASHINGS: usize, const MAX_ATTESTATIONS: usize, const MAX_DEPOSITS: usize, const MAX_VOLUNTARY_EXITS: usize, const SYNC_COMMITTEE_SIZE: usize, const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize, const MAX_BYTES_PER_TRANSACTION: usize, const MAX_TRANSACTIONS_PER_PAYLOAD: usize, const MAX_WITHDRAWALS_PER_PAYLOAD: usize, const MAX_BLS_TO_EXECUTION_CHANGES: usize, const MAX_BLOB_COMMITMENTS_PER_BLOCK: usize> Show for types::BeaconBlockBodyRefMut<'a, MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK> {
    fn show(self) -> Shown {
        let (v, r) = (format!("{:?}", self.version()), root(&self));
        let b = match &self { types::BeaconBlockBodyRefMut::Phase0(x) => bytes(*x), types::BeaconBlockBodyRefMut::Altair(x) => bytes(*x), types::BeaconBlockBodyRefMut::Bellatrix(x) => bytes(*x), types::BeaconBlockBodyRefMut::Capella(x) => bytes(*x), types::BeaconBlockBodyRefMut::Deneb(x) => bytes(*x), };
        Shown::View(v, b, r)
    }
}
impl<'a, const MAX_PROPOSER_SLASHINGS: usize, const MAX_VALIDATORS_PER_COMMITTEE: usize, const MAX_ATTESTER_SLASHINGS: usize, const MAX_ATTESTATIONS: usize, const MAX_DEPOSITS: usize, const MAX_VOLUNTARY_EXITS: usize, const SYNC_COMMITTEE_SIZE: usize, const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize, const MAX_BYTES_PER_TRANSACTION: usize, const MAX_TRANSACTIONS_PER_PAYLOAD: usize, const MAX_WITHDRAWALS_PER_PAYLOAD: usize, const MAX_BLS_TO_EXECUTION_CHANGES: usize, const MAX_BLOB_COMMITMENTS_PER_BLOCK: usize> Put for types::BeaconBlockBodyRefMut<'a, MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK> {
    fn put(self, b: &[u8]) -> bool {
        match self { types::BeaconBlockBodyRefMut::Phase0(x) => x.put(b), types::BeaconBlockBodyRefMut::Altair(x) => x.put(b), types::BeaconBlockBodyRefMut::Bellatrix(x) => x.put(b), types::BeaconBlockBodyRefMut::Capella(x) => x.put(b), types::BeaconBlockBodyRefMut::Deneb(x) => x.put(b), }
    }
}
impl<'a, const MAX_PROPOSER_SLASHINGS: usize, const MAX_VALIDATORS_PER_COMMITTEE: usize, const MAX_ATTESTER_SLASHINGS: usize, const MAX_ATTESTATIONS: usize, const MAX_DEPOSITS: usize, const MAX_VOLUNTARY_EXITS: usize, const SYNC_COMMITTEE_SIZE: usize, const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize, const MAX_BLS_TO_EXECUTION_CHANGES: usize, const MAX_BLOB_COMMITMENTS_PER_BLOCK: usize> Show for types::BlindedBeaconBlockRef<'a, MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK> {
    fn show(self) -> Shown {
        let (v, r) = (format!("{:?}", self.version()), root(&self));
        let b = match &self { types::BlindedBeaconBlockRef::Bellatrix(x) => bytes(*x), types::BlindedBeaconBlockRef::Capella(x) => bytes(*x), types::BlindedBeaconBlockRef::Deneb(x) => bytes(*x), };
        Shown::View(v, b, r)
    }
}
impl<'a, const MAX_PROPOSER_SLASHINGS: usize, const MAX_VALIDATORS_PER_COMMITTEE: usize, const MAX_ATTESTER_SLASHINGS: usize, const MAX_ATTESTATIONS: usize, const MAX_DEPOSITS: usize, const MAX_VOLUNTARY_EXITS: usize, const SYNC_COMMITTEE_SIZE: usize, const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize, const MAX_BLS_TO_EXECUTION_CHANGES: usize, const MAX_BLOB_COMMITMENTS_PER_BLOCK: usize> Show for types::BlindedBeaconBlockRefMut<'a, MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK> {
    fn show(self) -> Shown {
        let (v, r) = (format!("{:?}", self.version()), root(&self));
        let b = match &self { types::BlindedBeaconBlockRefMut::Bellatrix(x) => bytes(*x), types::BlindedBeaconBlockRefMut::Capella(x) => bytes(*x), types::BlindedBeaconBlockRefMut::Deneb(x) => bytes(*x), };
        Shown::View(v, b, r)
    }
}
impl<'a, const MAX_PROPOSER_SLASHINGS: usize, const MAX_VALIDATORS_PER_COMMITTEE: usize, const MAX_ATTESTER_SLASHINGS: usize, const MAX_ATTESTATIONS: usize, const MAX_DEPOSITS: usize, const MAX_VOLUNTARY_EXITS: usize, const SYNC_COMMITTEE_SIZE: usize, const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize, const MAX_BLS_TO_EXECUTION_CHANGES: usize, const MAX_BLOB_COMMITMENTS_PER_BLOCK: usize> Put for types::BlindedBeaconBlockRefMut<'a, MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK> {
    fn put(self, b: &[u8]) -> bool {
        match self { types::BlindedBeaconBlockRefMut::Bellatrix(x) => x.put(b), types::BlindedBeaconBlockRefMut::Capella(x) => x.put(b), types::BlindedBeaconBlockRefMut::Deneb(x) => x.put(b), }
    }
}
impl<'a, const MAX_PROPOSER_SLASHINGS: usize, const MAX_VALIDATORS_PER_COMMITTEE: usize, const MAX_ATTESTER_SLASHINGS: usize, const MAX_ATTESTATIONS: usize, const MAX_DEPOSITS: usize, const MAX_VOLUNTARY_EXITS: usize, const SYNC_COMMITTEE_SIZE: usize, const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize, const MAX_BLS_TO_EXECUTION_CHANGES: usize, const MAX_BLOB_COMMITMENTS_PER_BLOCK: usize> Show for types::BlindedBeaconBlockBodyRef<'a, MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK> {
    fn show(self) -> Shown {
        let (v, r) = (format!("{:?}", self.version()), root(&self));
        let b = match &self { types::BlindedBeaconBlockBodyRef::Bellatrix(x) => bytes(*x), types::BlindedBeaconBlockBodyRef::Capella(x) => bytes(*x), types::BlindedBeaconBlockBodyRef::Deneb(x) => bytes(*x), };
        Shown::View(v, b, r)
    }
}
impl<'a, const MAX_PROPOSER_SLASHINGS: usize, const MAX_VALIDATORS_PER_COMMITTEE: usize, const MAX_ATTESTER_SLASHINGS: usize, const MAX_ATTESTATIONS: usize, const MAX_DEPOSITS: usize, const MAX_VOLUNTARY_EXITS: usize, const SYNC_COMMITTEE_SIZE: usize, const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize, const MAX_BLS_TO_EXECUTION_CHANGES: usize, const MAX_BLOB_COMMITMENTS_PER_BLOCK: usize> Show for types::BlindedBeaconBlockBodyRefMut<'a, MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK> {
    fn show(self) -> Shown {
        let (v, r) = (format!("{:?}", self.version()), root(&self));
        let b = match &self { types::BlindedBeaconBlockBodyRefMut::Bellatrix(x) => bytes(*x), types::BlindedBeaconBlockBodyRefMut::Capella(x) => bytes(*x), types::BlindedBeaconBlockBodyRefMut::Deneb(x) => bytes(*x), };
        Shown::View(v, b, r)
    }
}
impl<'a, const MAX_PROPOSER_SLASHINGS: usize, const MAX_VALIDATORS_PER_COMMITTEE: usize, const MAX_ATTESTER_SLASHINGS: usize, const MAX_ATTESTATIONS: usize, const MAX_DEPOSITS: usize, const MAX_VOLUNTARY_EXITS: usize, const SYNC_COMMITTEE_SIZE: usize, const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize, const MAX_BLS_TO_EXECUTION_CHANGES: usize, const MAX_BLOB_COMMITMENTS_PER_BLOCK: usize> Put for types::BlindedBeaconBlockBodyRefMut<'a, MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK> {
    fn put(self, b: &[u8]) -> bool {
        match self { types::BlindedBeaconBlockBodyRefMut::Bellatrix(x) => x.put(b), types::BlindedBeaconBlockBodyRefMut::Capella(x) => x.put(b), types::BlindedBeaconBlockBodyRefMut::Deneb(x) => x.put(b), }
    }
}
impl<'a, const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize, const MAX_BYTES_PER_TRANSACTION: usize, const MAX_TRANSACTIONS_PER_PAYLOAD: usize, const MAX_WITHDRAWALS_PER_PAYLOAD: usize> Show for types::ExecutionPayloadRef<'a, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD> {
    fn show(self) -> Shown {
        let (v, r) = (format!("{:?}", self.version()), root(&self));
        let b = match &self { types::ExecutionPayloadRef::Bellatrix(x) => bytes(*x), types::ExecutionPayloadRef::Capella(x) => bytes(*x), types::ExecutionPayloadRef::Deneb(x) => bytes(*x), };
        Shown::View(v, b, r)
    }
}
impl<'a, const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize, const MAX_BYTES_PER_TRANSACTION: usize, const MAX_TRANSACTIONS_PER_PAYLOAD: usize, const MAX_WITHDRAWALS_PER_PAYLOAD: usize> Show for types::ExecutionPayloadRefMut<'a, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD> {
    fn show(self) -> Shown {
        let (v, r) = (format!("{:?}", self.version()), root(&self));
        let b = match &self { types::ExecutionPayloadRefMut::Bellatrix(x) => bytes(*x), types::ExecutionPayloadRefMut::Capella(x) => bytes(*x), types::ExecutionPayloadRefMut::Deneb(x) => bytes(*x), };
        Shown::View(v, b, r)
    }
}
impl<'a, const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize, const MAX_BYTES_PER_TRANSACTION: usize, const MAX_TRANSACTIONS_PER_PAYLOAD: usize, const MAX_WITHDRAWALS_PER_PAYLOAD: usize> Put for types::ExecutionPayloadRefMut<'a, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD> {
    fn put(self, b: &[u8]) -> bool {
        match self { types::ExecutionPayloadRefMut::Bellatrix(x) => x.put(b), types::ExecutionPayloadRefMut::Capella(x) => x.put(b), types::ExecutionPayloadRefMut::Deneb(x) => x.put(b), }
    }
}
impl<'a, const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize> Show for types::ExecutionPayloadHeaderRef<'a, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES> {
    fn show(self) -> Shown {
        let (v, r) = (format!("{:?}", self.version()), root(&self));
        let b = match &self { types::ExecutionPayloadHeaderRef::Bellatrix(x) => bytes(*x), types::ExecutionPayloadHeaderRef::Capella(x) => bytes(*x), types::ExecutionPayloadHeaderRef::Deneb(x) => bytes(*x), };
        Shown::View(v, b, r)
    }
}
impl<'a, const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize> Show for types::ExecutionPayloadHeaderRefMut<'a, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES> {
    fn show(self) -> Shown {
        let (v, r) = (format!("{:?}", self.version()), root(&self));
        let b = match &self { types::ExecutionPayloadHeaderRefMut::Bellatrix(x) => bytes(*x), types::ExecutionPayloadHeaderRefMut::Capella(x) => bytes(*x), types::ExecutionPayloadHeaderRefMut::Deneb(x) => bytes(*x), };
        Shown::View(v, b, r)
    }
}
impl<'a, const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize> Put for types::ExecutionPayloadHeaderRefMut<'a, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES> {
    fn put(self, b: &[u8]) -> bool {
        match self { types::ExecutionPayloadHeaderRefMut::Bellatrix(x) => x.put(b), types::ExecutionPayloadHeaderRefMut::Capella(x) => x.put(b), types::ExecutionPayloadHeaderRefMut::Deneb(x) => x.put(b), }
    }
}
fn beacon_state(f: Fork, b: &[u8], field: &str, new: &[u8]) -> Got<Report> {
    use ssz_rs::Deserialize;
    settle(|| {
        let mut r = Report::default();
        match f {
        Fork::Phase0 => {
            let x = ec::phase0::minimal::BeaconState::deserialize(b).map_err(|e| format!("{e:?}"))?;
            let mut own = types::minimal::BeaconState::Phase0(x.clone());
            r.version.push(("value", format!("{:?}", own.version())));
            r.root.push(("value", root(&own)));
            r.reads.push(("value", "genesis_time", Show::show(own.genesis_time()))); r.reads.push(("value", "genesis_validators_root", Show::show(own.genesis_validators_root()))); r.reads.push(("value", "slot", Show::show(own.slot()))); r.reads.push(("value", "fork", Show::show(own.fork()))); r.reads.push(("value", "latest_block_header", Show::show(own.latest_block_header()))); r.reads.push(("value", "block_roots", Show::show(own.block_roots()))); r.reads.push(("value", "state_roots", Show::show(own.state_roots()))); r.reads.push(("value", "historical_roots", Show::show(own.historical_roots()))); r.reads.push(("value", "eth1_data", Show::show(own.eth1_data()))); r.reads.push(("value", "eth1_data_votes", Show::show(own.eth1_data_votes()))); r.reads.push(("value", "eth1_deposit_index", Show::show(own.eth1_deposit_index()))); r.reads.push(("value", "validators", Show::show(own.validators()))); r.reads.push(("value", "balances", Show::show(own.balances()))); r.reads.push(("value", "randao_mixes", Show::show(own.randao_mixes()))); r.reads.push(("value", "slashings", Show::show(own.slashings()))); r.reads.push(("value", "previous_epoch_attestations", Show::show(own.previous_epoch_attestations()))); r.reads.push(("value", "current_epoch_attestations", Show::show(own.current_epoch_attestations()))); r.reads.push(("value", "justification_bits", Show::show(own.justification_bits()))); r.reads.push(("value", "previous_justified_checkpoint", Show::show(own.previous_justified_checkpoint()))); r.reads.push(("value", "current_justified_checkpoint", Show::show(own.current_justified_checkpoint()))); r.reads.push(("value", "finalized_checkpoint", Show::show(own.finalized_checkpoint()))); r.reads.push(("value", "previous_epoch_participation", Show::show(own.previous_epoch_participation()))); r.reads.push(("value", "current_epoch_participation", Show::show(own.current_epoch_participation()))); r.reads.push(("value", "inactivity_scores", Show::show(own.inactivity_scores()))); r.reads.push(("value", "current_sync_committee", Show::show(own.current_sync_committee()))); r.reads.push(("value", "next_sync_committee", Show::show(own.next_sync_committee()))); r.reads.push(("value", "latest_execution_payload_header", Show::show(own.latest_execution_payload_header()))); r.reads.push(("value", "next_withdrawal_index", Show::show(own.next_withdrawal_index()))); r.reads.push(("value", "next_withdrawal_validator_index", Show::show(own.next_withdrawal_validator_index()))); r.reads.push(("value", "historical_summaries", Show::show(own.historical_summaries())));
            if let Some(y) = own.phase0() { r.conversions.push(("value", "phase0", bytes(y))); } if let Some(y) = own.altair() { r.conversions.push(("value", "altair", bytes(y))); } if let Some(y) = own.bellatrix() { r.conversions.push(("value", "bellatrix", bytes(y))); } if let Some(y) = own.capella() { r.conversions.push(("value", "capella", bytes(y))); } if let Some(y) = own.deneb() { r.conversions.push(("value", "deneb", bytes(y))); }
            r.ssz = bytes(&own);
            r.json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
            let tree: serde_json::Value = serde_json::from_str(&r.json).map_err(|e| e.to_string())?;
            for back in [serde_json::from_str::<types::minimal::BeaconState>(&r.json), serde_json::from_value(tree)] {
                r.back.push(back.map(|x| (format!("{:?}", x.version()), bytes(&x))).map_err(|e| e.to_string()));
            }
            let there = match field { "genesis_time" => Put::put(own.genesis_time_mut(), new), "genesis_validators_root" => Put::put(own.genesis_validators_root_mut(), new), "slot" => Put::put(own.slot_mut(), new), "fork" => Put::put(own.fork_mut(), new), "latest_block_header" => Put::put(own.latest_block_header_mut(), new), "block_roots" => Put::put(own.block_roots_mut(), new), "state_roots" => Put::put(own.state_roots_mut(), new), "historical_roots" => Put::put(own.historical_roots_mut(), new), "eth1_data" => Put::put(own.eth1_data_mut(), new), "eth1_data_votes" => Put::put(own.eth1_data_votes_mut(), new), "eth1_deposit_index" => Put::put(own.eth1_deposit_index_mut(), new), "validators" => Put::put(own.validators_mut(), new), "balances" => Put::put(own.balances_mut(), new), "randao_mixes" => Put::put(own.randao_mixes_mut(), new), "slashings" => Put::put(own.slashings_mut(), new), "previous_epoch_attestations" => Put::put(own.previous_epoch_attestations_mut(), new), "current_epoch_attestations" => Put::put(own.current_epoch_attestations_mut(), new), "justification_bits" => Put::put(own.justification_bits_mut(), new), "previous_justified_checkpoint" => Put::put(own.previous_justified_checkpoint_mut(), new), "current_justified_checkpoint" => Put::put(own.current_justified_checkpoint_mut(), new), "finalized_checkpoint" => Put::put(own.finalized_checkpoint_mut(), new), "previous_epoch_participation" => Put::put(own.previous_epoch_participation_mut(), new), "current_epoch_participation" => Put::put(own.current_epoch_participation_mut(), new), "inactivity_scores" => Put::put(own.inactivity_scores_mut(), new), "current_sync_committee" => Put::put(own.current_sync_committee_mut(), new), "next_sync_committee" => Put::put(own.next_sync_committee_mut(), new), "latest_execution_payload_header" => Put::put(own.latest_execution_payload_header_mut(), new), "next_withdrawal_index" => Put::put(own.next_withdrawal_index_mut(), new), "next_withdrawal_validator_index" => Put::put(own.next_withdrawal_validator_index_mut(), new), "historical_summaries" => Put::put(own.historical_summaries_mut(), new), _ => panic!("{field}") };
            r.writes.push(("value", there, bytes(&own)));
            let mut own = types::minimal::BeaconState::Phase0(x.clone());
            r.conversions.extend(own.phase0_mut().map(|y| ("value to write", "phase0", bytes(y))));
            if own.altair_mut().is_some() { r.conversions.push(("value to write", "altair", vec![])); }
            if own.bellatrix_mut().is_some() { r.conversions.push(("value to write", "bellatrix", vec![])); }
            if own.capella_mut().is_some() { r.conversions.push(("value to write", "capella", vec![])); }
            if own.deneb_mut().is_some() { r.conversions.push(("value to write", "deneb", vec![])); }
            let shared = types::BeaconStateRef::<{ ec::deneb::minimal::SLOTS_PER_HISTORICAL_ROOT }, { ec::deneb::minimal::HISTORICAL_ROOTS_LIMIT }, { ec::deneb::minimal::ETH1_DATA_VOTES_BOUND }, { ec::deneb::minimal::VALIDATOR_REGISTRY_LIMIT }, { ec::deneb::minimal::EPOCHS_PER_HISTORICAL_VECTOR }, { ec::deneb::minimal::EPOCHS_PER_SLASHINGS_VECTOR }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::phase0::minimal::PENDING_ATTESTATIONS_BOUND }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }>::from(&x);
            r.version.push(("shared", format!("{:?}", shared.version())));
            r.root.push(("shared", root(&shared)));
            r.reads.push(("shared", "genesis_time", Show::show(shared.genesis_time()))); r.reads.push(("shared", "genesis_validators_root", Show::show(shared.genesis_validators_root()))); r.reads.push(("shared", "slot", Show::show(shared.slot()))); r.reads.push(("shared", "fork", Show::show(shared.fork()))); r.reads.push(("shared", "latest_block_header", Show::show(shared.latest_block_header()))); r.reads.push(("shared", "block_roots", Show::show(shared.block_roots()))); r.reads.push(("shared", "state_roots", Show::show(shared.state_roots()))); r.reads.push(("shared", "historical_roots", Show::show(shared.historical_roots()))); r.reads.push(("shared", "eth1_data", Show::show(shared.eth1_data()))); r.reads.push(("shared", "eth1_data_votes", Show::show(shared.eth1_data_votes()))); r.reads.push(("shared", "eth1_deposit_index", Show::show(shared.eth1_deposit_index()))); r.reads.push(("shared", "validators", Show::show(shared.validators()))); r.reads.push(("shared", "balances", Show::show(shared.balances()))); r.reads.push(("shared", "randao_mixes", Show::show(shared.randao_mixes()))); r.reads.push(("shared", "slashings", Show::show(shared.slashings()))); r.reads.push(("shared", "previous_epoch_attestations", Show::show(shared.previous_epoch_attestations()))); r.reads.push(("shared", "current_epoch_attestations", Show::show(shared.current_epoch_attestations()))); r.reads.push(("shared", "justification_bits", Show::show(shared.justification_bits()))); r.reads.push(("shared", "previous_justified_checkpoint", Show::show(shared.previous_justified_checkpoint()))); r.reads.push(("shared", "current_justified_checkpoint", Show::show(shared.current_justified_checkpoint()))); r.reads.push(("shared", "finalized_checkpoint", Show::show(shared.finalized_checkpoint()))); r.reads.push(("shared", "previous_epoch_participation", Show::show(shared.previous_epoch_participation()))); r.reads.push(("shared", "current_epoch_participation", Show::show(shared.current_epoch_participation()))); r.reads.push(("shared", "inactivity_scores", Show::show(shared.inactivity_scores()))); r.reads.push(("shared", "current_sync_committee", Show::show(shared.current_sync_committee()))); r.reads.push(("shared", "next_sync_committee", Show::show(shared.next_sync_committee()))); r.reads.push(("shared", "latest_execution_payload_header", Show::show(shared.latest_execution_payload_header()))); r.reads.push(("shared", "next_withdrawal_index", Show::show(shared.next_withdrawal_index()))); r.reads.push(("shared", "next_withdrawal_validator_index", Show::show(shared.next_withdrawal_validator_index()))); r.reads.push(("shared", "historical_summaries", Show::show(shared.historical_summaries())));
            if let Some(y) = shared.phase0() { r.conversions.push(("shared", "phase0", bytes(y))); } if let Some(y) = shared.altair() { r.conversions.push(("shared", "altair", bytes(y))); } if let Some(y) = shared.bellatrix() { r.conversions.push(("shared", "bellatrix", bytes(y))); } if let Some(y) = shared.capella() { r.conversions.push(("shared", "capella", bytes(y))); } if let Some(y) = shared.deneb() { r.conversions.push(("shared", "deneb", bytes(y))); }
            let mut y = x.clone();
            let mut excl = types::BeaconStateRefMut::<{ ec::deneb::minimal::SLOTS_PER_HISTORICAL_ROOT }, { ec::deneb::minimal::HISTORICAL_ROOTS_LIMIT }, { ec::deneb::minimal::ETH1_DATA_VOTES_BOUND }, { ec::deneb::minimal::VALIDATOR_REGISTRY_LIMIT }, { ec::deneb::minimal::EPOCHS_PER_HISTORICAL_VECTOR }, { ec::deneb::minimal::EPOCHS_PER_SLASHINGS_VECTOR }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::phase0::minimal::PENDING_ATTESTATIONS_BOUND }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }>::from(&mut y);
            r.version.push(("exclusive", format!("{:?}", excl.version())));
            r.root.push(("exclusive", root(&excl)));
            r.reads.push(("exclusive", "genesis_time", Show::show(excl.genesis_time()))); r.reads.push(("exclusive", "genesis_validators_root", Show::show(excl.genesis_validators_root()))); r.reads.push(("exclusive", "slot", Show::show(excl.slot()))); r.reads.push(("exclusive", "fork", Show::show(excl.fork()))); r.reads.push(("exclusive", "latest_block_header", Show::show(excl.latest_block_header()))); r.reads.push(("exclusive", "block_roots", Show::show(excl.block_roots()))); r.reads.push(("exclusive", "state_roots", Show::show(excl.state_roots()))); r.reads.push(("exclusive", "historical_roots", Show::show(excl.historical_roots()))); r.reads.push(("exclusive", "eth1_data", Show::show(excl.eth1_data()))); r.reads.push(("exclusive", "eth1_data_votes", Show::show(excl.eth1_data_votes()))); r.reads.push(("exclusive", "eth1_deposit_index", Show::show(excl.eth1_deposit_index()))); r.reads.push(("exclusive", "validators", Show::show(excl.validators()))); r.reads.push(("exclusive", "balances", Show::show(excl.balances()))); r.reads.push(("exclusive", "randao_mixes", Show::show(excl.randao_mixes()))); r.reads.push(("exclusive", "slashings", Show::show(excl.slashings()))); r.reads.push(("exclusive", "previous_epoch_attestations", Show::show(excl.previous_epoch_attestations()))); r.reads.push(("exclusive", "current_epoch_attestations", Show::show(excl.current_epoch_attestations()))); r.reads.push(("exclusive", "justification_bits", Show::show(excl.justification_bits()))); r.reads.push(("exclusive", "previous_justified_checkpoint", Show::show(excl.previous_justified_checkpoint()))); r.reads.push(("exclusive", "current_justified_checkpoint", Show::show(excl.current_justified_checkpoint()))); r.reads.push(("exclusive", "finalized_checkpoint", Show::show(excl.finalized_checkpoint()))); r.reads.push(("exclusive", "previous_epoch_participation", Show::show(excl.previous_epoch_participation()))); r.reads.push(("exclusive", "current_epoch_participation", Show::show(excl.current_epoch_participation()))); r.reads.push(("exclusive", "inactivity_scores", Show::show(excl.inactivity_scores()))); r.reads.push(("exclusive", "current_sync_committee", Show::show(excl.current_sync_committee()))); r.reads.push(("exclusive", "next_sync_committee", Show::show(excl.next_sync_committee()))); r.reads.push(("exclusive", "latest_execution_payload_header", Show::show(excl.latest_execution_payload_header()))); r.reads.push(("exclusive", "next_withdrawal_index", Show::show(excl.next_withdrawal_index()))); r.reads.push(("exclusive", "next_withdrawal_validator_index", Show::show(excl.next_withdrawal_validator_index()))); r.reads.push(("exclusive", "historical_summaries", Show::show(excl.historical_summaries())));
            if let Some(y) = excl.phase0() { r.conversions.push(("exclusive", "phase0", bytes(y))); } if let Some(y) = excl.altair() { r.conversions.push(("exclusive", "altair", bytes(y))); } if let Some(y) = excl.bellatrix() { r.conversions.push(("exclusive", "bellatrix", bytes(y))); } if let Some(y) = excl.capella() { r.conversions.push(("exclusive", "capella", bytes(y))); } if let Some(y) = excl.deneb() { r.conversions.push(("exclusive", "deneb", bytes(y))); }
            let there = match field { "genesis_time" => Put::put(excl.genesis_time_mut(), new), "genesis_validators_root" => Put::put(excl.genesis_validators_root_mut(), new), "slot" => Put::put(excl.slot_mut(), new), "fork" => Put::put(excl.fork_mut(), new), "latest_block_header" => Put::put(excl.latest_block_header_mut(), new), "block_roots" => Put::put(excl.block_roots_mut(), new), "state_roots" => Put::put(excl.state_roots_mut(), new), "historical_roots" => Put::put(excl.historical_roots_mut(), new), "eth1_data" => Put::put(excl.eth1_data_mut(), new), "eth1_data_votes" => Put::put(excl.eth1_data_votes_mut(), new), "eth1_deposit_index" => Put::put(excl.eth1_deposit_index_mut(), new), "validators" => Put::put(excl.validators_mut(), new), "balances" => Put::put(excl.balances_mut(), new), "randao_mixes" => Put::put(excl.randao_mixes_mut(), new), "slashings" => Put::put(excl.slashings_mut(), new), "previous_epoch_attestations" => Put::put(excl.previous_epoch_attestations_mut(), new), "current_epoch_attestations" => Put::put(excl.current_epoch_attestations_mut(), new), "justification_bits" => Put::put(excl.justification_bits_mut(), new), "previous_justified_checkpoint" => Put::put(excl.previous_justified_checkpoint_mut(), new), "current_justified_checkpoint" => Put::put(excl.current_justified_checkpoint_mut(), new), "finalized_checkpoint" => Put::put(excl.finalized_checkpoint_mut(), new), "previous_epoch_participation" => Put::put(excl.previous_epoch_participation_mut(), new), "current_epoch_participation" => Put::put(excl.current_epoch_participation_mut(), new), "inactivity_scores" => Put::put(excl.inactivity_scores_mut(), new), "current_sync_committee" => Put::put(excl.current_sync_committee_mut(), new), "next_sync_committee" => Put::put(excl.next_sync_committee_mut(), new), "latest_execution_payload_header" => Put::put(excl.latest_execution_payload_header_mut(), new), "next_withdrawal_index" => Put::put(excl.next_withdrawal_index_mut(), new), "next_withdrawal_validator_index" => Put::put(excl.next_withdrawal_validator_index_mut(), new), "historical_summaries" => Put::put(excl.historical_summaries_mut(), new), _ => panic!("{field}") };
            r.writes.push(("exclusive", there, bytes(&y)));
        }
        Fork::Altair => {
            let x = ec::altair::minimal::BeaconState::deserialize(b).map_err(|e| format!("{e:?}"))?;
            let mut own = types::minimal::BeaconState::Altair(x.clone());
            r.version.push(("value", format!("{:?}", own.version())));
            r.root.push(("value", root(&own)));
            r.reads.push(("value", "genesis_time", Show::show(own.genesis_time()))); r.reads.push(("value", "genesis_validators_root", Show::show(own.genesis_validators_root()))); r.reads.push(("value", "slot", Show::show(own.slot()))); r.reads.push(("value", "fork", Show::show(own.fork()))); r.reads.push(("value", "latest_block_header", Show::show(own.latest_block_header()))); r.reads.push(("value", "block_roots", Show::show(own.block_roots()))); r.reads.push(("value", "state_roots", Show::show(own.state_roots()))); r.reads.push(("value", "historical_roots", Show::show(own.historical_roots()))); r.reads.push(("value", "eth1_data", Show::show(own.eth1_data()))); r.reads.push(("value", "eth1_data_votes", Show::show(own.eth1_data_votes()))); r.reads.push(("value", "eth1_deposit_index", Show::show(own.eth1_deposit_index()))); r.reads.push(("value", "validators", Show::show(own.validators()))); r.reads.push(("value", "balances", Show::show(own.balances()))); r.reads.push(("value", "randao_mixes", Show::show(own.randao_mixes()))); r.reads.push(("value", "slashings", Show::show(own.slashings()))); r.reads.push(("value", "previous_epoch_attestations", Show::show(own.previous_epoch_attestations()))); r.reads.push(("value", "current_epoch_attestations", Show::show(own.current_epoch_attestations()))); r.reads.push(("value", "justification_bits", Show::show(own.justification_bits()))); r.reads.push(("value", "previous_justified_checkpoint", Show::show(own.previous_justified_checkpoint()))); r.reads.push(("value", "current_justified_checkpoint", Show::show(own.current_justified_checkpoint()))); r.reads.push(("value", "finalized_checkpoint", Show::show(own.finalized_checkpoint()))); r.reads.push(("value", "previous_epoch_participation", Show::show(own.previous_epoch_participation()))); r.reads.push(("value", "current_epoch_participation", Show::show(own.current_epoch_participation()))); r.reads.push(("value", "inactivity_scores", Show::show(own.inactivity_scores()))); r.reads.push(("value", "current_sync_committee", Show::show(own.current_sync_committee()))); r.reads.push(("value", "next_sync_committee", Show::show(own.next_sync_committee()))); r.reads.push(("value", "latest_execution_payload_header", Show::show(own.latest_execution_payload_header()))); r.reads.push(("value", "next_withdrawal_index", Show::show(own.next_withdrawal_index()))); r.reads.push(("value", "next_withdrawal_validator_index", Show::show(own.next_withdrawal_validator_index()))); r.reads.push(("value", "historical_summaries", Show::show(own.historical_summaries())));
            if let Some(y) = own.phase0() { r.conversions.push(("value", "phase0", bytes(y))); } if let Some(y) = own.altair() { r.conversions.push(("value", "altair", bytes(y))); } if let Some(y) = own.bellatrix() { r.conversions.push(("value", "bellatrix", bytes(y))); } if let Some(y) = own.capella() { r.conversions.push(("value", "capella", bytes(y))); } if let Some(y) = own.deneb() { r.conversions.push(("value", "deneb", bytes(y))); }
            r.ssz = bytes(&own);
            r.json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
            let tree: serde_json::Value = serde_json::from_str(&r.json).map_err(|e| e.to_string())?;
            for back in [serde_json::from_str::<types::minimal::BeaconState>(&r.json), serde_json::from_value(tree)] {
                r.back.push(back.map(|x| (format!("{:?}", x.version()), bytes(&x))).map_err(|e| e.to_string()));
            }
            let there = match field { "genesis_time" => Put::put(own.genesis_time_mut(), new), "genesis_validators_root" => Put::put(own.genesis_validators_root_mut(), new), "slot" => Put::put(own.slot_mut(), new), "fork" => Put::put(own.fork_mut(), new), "latest_block_header" => Put::put(own.latest_block_header_mut(), new), "block_roots" => Put::put(own.block_roots_mut(), new), "state_roots" => Put::put(own.state_roots_mut(), new), "historical_roots" => Put::put(own.historical_roots_mut(), new), "eth1_data" => Put::put(own.eth1_data_mut(), new), "eth1_data_votes" => Put::put(own.eth1_data_votes_mut(), new), "eth1_deposit_index" => Put::put(own.eth1_deposit_index_mut(), new), "validators" => Put::put(own.validators_mut(), new), "balances" => Put::put(own.balances_mut(), new), "randao_mixes" => Put::put(own.randao_mixes_mut(), new), "slashings" => Put::put(own.slashings_mut(), new), "previous_epoch_attestations" => Put::put(own.previous_epoch_attestations_mut(), new), "current_epoch_attestations" => Put::put(own.current_epoch_attestations_mut(), new), "justification_bits" => Put::put(own.justification_bits_mut(), new), "previous_justified_checkpoint" => Put::put(own.previous_justified_checkpoint_mut(), new), "current_justified_checkpoint" => Put::put(own.current_justified_checkpoint_mut(), new), "finalized_checkpoint" => Put::put(own.finalized_checkpoint_mut(), new), "previous_epoch_participation" => Put::put(own.previous_epoch_participation_mut(), new), "current_epoch_participation" => Put::put(own.current_epoch_participation_mut(), new), "inactivity_scores" => Put::put(own.inactivity_scores_mut(), new), "current_sync_committee" => Put::put(own.current_sync_committee_mut(), new), "next_sync_committee" => Put::put(own.next_sync_committee_mut(), new), "latest_execution_payload_header" => Put::put(own.latest_execution_payload_header_mut(), new), "next_withdrawal_index" => Put::put(own.next_withdrawal_index_mut(), new), "next_withdrawal_validator_index" => Put::put(own.next_withdrawal_validator_index_mut(), new), "historical_summaries" => Put::put(own.historical_summaries_mut(), new), _ => panic!("{field}") };
            r.writes.push(("value", there, bytes(&own)));
            let mut own = types::minimal::BeaconState::Altair(x.clone());
            r.conversions.extend(own.altair_mut().map(|y| ("value to write", "altair", bytes(y))));
            if own.phase0_mut().is_some() { r.conversions.push(("value to write", "phase0", vec![])); }
            if own.bellatrix_mut().is_some() { r.conversions.push(("value to write", "bellatrix", vec![])); }
            if own.capella_mut().is_some() { r.conversions.push(("value to write", "capella", vec![])); }
            if own.deneb_mut().is_some() { r.conversions.push(("value to write", "deneb", vec![])); }
            let shared = types::BeaconStateRef::<{ ec::deneb::minimal::SLOTS_PER_HISTORICAL_ROOT }, { ec::deneb::minimal::HISTORICAL_ROOTS_LIMIT }, { ec::deneb::minimal::ETH1_DATA_VOTES_BOUND }, { ec::deneb::minimal::VALIDATOR_REGISTRY_LIMIT }, { ec::deneb::minimal::EPOCHS_PER_HISTORICAL_VECTOR }, { ec::deneb::minimal::EPOCHS_PER_SLASHINGS_VECTOR }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::phase0::minimal::PENDING_ATTESTATIONS_BOUND }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }>::from(&x);
            r.version.push(("shared", format!("{:?}", shared.version())));
            r.root.push(("shared", root(&shared)));
            r.reads.push(("shared", "genesis_time", Show::show(shared.genesis_time()))); r.reads.push(("shared", "genesis_validators_root", Show::show(shared.genesis_validators_root()))); r.reads.push(("shared", "slot", Show::show(shared.slot()))); r.reads.push(("shared", "fork", Show::show(shared.fork()))); r.reads.push(("shared", "latest_block_header", Show::show(shared.latest_block_header()))); r.reads.push(("shared", "block_roots", Show::show(shared.block_roots()))); r.reads.push(("shared", "state_roots", Show::show(shared.state_roots()))); r.reads.push(("shared", "historical_roots", Show::show(shared.historical_roots()))); r.reads.push(("shared", "eth1_data", Show::show(shared.eth1_data()))); r.reads.push(("shared", "eth1_data_votes", Show::show(shared.eth1_data_votes()))); r.reads.push(("shared", "eth1_deposit_index", Show::show(shared.eth1_deposit_index()))); r.reads.push(("shared", "validators", Show::show(shared.validators()))); r.reads.push(("shared", "balances", Show::show(shared.balances()))); r.reads.push(("shared", "randao_mixes", Show::show(shared.randao_mixes()))); r.reads.push(("shared", "slashings", Show::show(shared.slashings()))); r.reads.push(("shared", "previous_epoch_attestations", Show::show(shared.previous_epoch_attestations()))); r.reads.push(("shared", "current_epoch_attestations", Show::show(shared.current_epoch_attestations()))); r.reads.push(("shared", "justification_bits", Show::show(shared.justification_bits()))); r.reads.push(("shared", "previous_justified_checkpoint", Show::show(shared.previous_justified_checkpoint()))); r.reads.push(("shared", "current_justified_checkpoint", Show::show(shared.current_justified_checkpoint()))); r.reads.push(("shared", "finalized_checkpoint", Show::show(shared.finalized_checkpoint()))); r.reads.push(("shared", "previous_epoch_participation", Show::show(shared.previous_epoch_participation()))); r.reads.push(("shared", "current_epoch_participation", Show::show(shared.current_epoch_participation()))); r.reads.push(("shared", "inactivity_scores", Show::show(shared.inactivity_scores()))); r.reads.push(("shared", "current_sync_committee", Show::show(shared.current_sync_committee()))); r.reads.push(("shared", "next_sync_committee", Show::show(shared.next_sync_committee()))); r.reads.push(("shared", "latest_execution_payload_header", Show::show(shared.latest_execution_payload_header()))); r.reads.push(("shared", "next_withdrawal_index", Show::show(shared.next_withdrawal_index()))); r.reads.push(("shared", "next_withdrawal_validator_index", Show::show(shared.next_withdrawal_validator_index()))); r.reads.push(("shared", "historical_summaries", Show::show(shared.historical_summaries())));
            if let Some(y) = shared.phase0() { r.conversions.push(("shared", "phase0", bytes(y))); } if let Some(y) = shared.altair() { r.conversions.push(("shared", "altair", bytes(y))); } if let Some(y) = shared.bellatrix() { r.conversions.push(("shared", "bellatrix", bytes(y))); } if let Some(y) = shared.capella() { r.conversions.push(("shared", "capella", bytes(y))); } if let Some(y) = shared.deneb() { r.conversions.push(("shared", "deneb", bytes(y))); }
            let mut y = x.clone();
            let mut excl = types::BeaconStateRefMut::<{ ec::deneb::minimal::SLOTS_PER_HISTORICAL_ROOT }, { ec::deneb::minimal::HISTORICAL_ROOTS_LIMIT }, { ec::deneb::minimal::ETH1_DATA_VOTES_BOUND }, { ec::deneb::minimal::VALIDATOR_REGISTRY_LIMIT }, { ec::deneb::minimal::EPOCHS_PER_HISTORICAL_VECTOR }, { ec::deneb::minimal::EPOCHS_PER_SLASHINGS_VECTOR }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::phase0::minimal::PENDING_ATTESTATIONS_BOUND }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }>::from(&mut y);
            r.version.push(("exclusive", format!("{:?}", excl.version())));
            r.root.push(("exclusive", root(&excl)));
            r.reads.push(("exclusive", "genesis_time", Show::show(excl.genesis_time()))); r.reads.push(("exclusive", "genesis_validators_root", Show::show(excl.genesis_validators_root()))); r.reads.push(("exclusive", "slot", Show::show(excl.slot()))); r.reads.push(("exclusive", "fork", Show::show(excl.fork()))); r.reads.push(("exclusive", "latest_block_header", Show::show(excl.latest_block_header()))); r.reads.push(("exclusive", "block_roots", Show::show(excl.block_roots()))); r.reads.push(("exclusive", "state_roots", Show::show(excl.state_roots()))); r.reads.push(("exclusive", "historical_roots", Show::show(excl.historical_roots()))); r.reads.push(("exclusive", "eth1_data", Show::show(excl.eth1_data()))); r.reads.push(("exclusive", "eth1_data_votes", Show::show(excl.eth1_data_votes()))); r.reads.push(("exclusive", "eth1_deposit_index", Show::show(excl.eth1_deposit_index()))); r.reads.push(("exclusive", "validators", Show::show(excl.validators()))); r.reads.push(("exclusive", "balances", Show::show(excl.balances()))); r.reads.push(("exclusive", "randao_mixes", Show::show(excl.randao_mixes()))); r.reads.push(("exclusive", "slashings", Show::show(excl.slashings()))); r.reads.push(("exclusive", "previous_epoch_attestations", Show::show(excl.previous_epoch_attestations()))); r.reads.push(("exclusive", "current_epoch_attestations", Show::show(excl.current_epoch_attestations()))); r.reads.push(("exclusive", "justification_bits", Show::show(excl.justification_bits()))); r.reads.push(("exclusive", "previous_justified_checkpoint", Show::show(excl.previous_justified_checkpoint()))); r.reads.push(("exclusive", "current_justified_checkpoint", Show::show(excl.current_justified_checkpoint()))); r.reads.push(("exclusive", "finalized_checkpoint", Show::show(excl.finalized_checkpoint()))); r.reads.push(("exclusive", "previous_epoch_participation", Show::show(excl.previous_epoch_participation()))); r.reads.push(("exclusive", "current_epoch_participation", Show::show(excl.current_epoch_participation()))); r.reads.push(("exclusive", "inactivity_scores", Show::show(excl.inactivity_scores()))); r.reads.push(("exclusive", "current_sync_committee", Show::show(excl.current_sync_committee()))); r.reads.push(("exclusive", "next_sync_committee", Show::show(excl.next_sync_committee()))); r.reads.push(("exclusive", "latest_execution_payload_header", Show::show(excl.latest_execution_payload_header()))); r.reads.push(("exclusive", "next_withdrawal_index", Show::show(excl.next_withdrawal_index()))); r.reads.push(("exclusive", "next_withdrawal_validator_index", Show::show(excl.next_withdrawal_validator_index()))); r.reads.push(("exclusive", "historical_summaries", Show::show(excl.historical_summaries())));
            if let Some(y) = excl.phase0() { r.conversions.push(("exclusive", "phase0", bytes(y))); } if let Some(y) = excl.altair() { r.conversions.push(("exclusive", "altair", bytes(y))); } if let Some(y) = excl.bellatrix() { r.conversions.push(("exclusive", "bellatrix", bytes(y))); } if let Some(y) = excl.capella() { r.conversions.push(("exclusive", "capella", bytes(y))); } if let Some(y) = excl.deneb() { r.conversions.push(("exclusive", "deneb", bytes(y))); }
            let there = match field { "genesis_time" => Put::put(excl.genesis_time_mut(), new), "genesis_validators_root" => Put::put(excl.genesis_validators_root_mut(), new), "slot" => Put::put(excl.slot_mut(), new), "fork" => Put::put(excl.fork_mut(), new), "latest_block_header" => Put::put(excl.latest_block_header_mut(), new), "block_roots" => Put::put(excl.block_roots_mut(), new), "state_roots" => Put::put(excl.state_roots_mut(), new), "historical_roots" => Put::put(excl.historical_roots_mut(), new), "eth1_data" => Put::put(excl.eth1_data_mut(), new), "eth1_data_votes" => Put::put(excl.eth1_data_votes_mut(), new), "eth1_deposit_index" => Put::put(excl.eth1_deposit_index_mut(), new), "validators" => Put::put(excl.validators_mut(), new), "balances" => Put::put(excl.balances_mut(), new), "randao_mixes" => Put::put(excl.randao_mixes_mut(), new), "slashings" => Put::put(excl.slashings_mut(), new), "previous_epoch_attestations" => Put::put(excl.previous_epoch_attestations_mut(), new), "current_epoch_attestations" => Put::put(excl.current_epoch_attestations_mut(), new), "justification_bits" => Put::put(excl.justification_bits_mut(), new), "previous_justified_checkpoint" => Put::put(excl.previous_justified_checkpoint_mut(), new), "current_justified_checkpoint" => Put::put(excl.current_justified_checkpoint_mut(), new), "finalized_checkpoint" => Put::put(excl.finalized_checkpoint_mut(), new), "previous_epoch_participation" => Put::put(excl.previous_epoch_participation_mut(), new), "current_epoch_participation" => Put::put(excl.current_epoch_participation_mut(), new), "inactivity_scores" => Put::put(excl.inactivity_scores_mut(), new), "current_sync_committee" => Put::put(excl.current_sync_committee_mut(), new), "next_sync_committee" => Put::put(excl.next_sync_committee_mut(), new), "latest_execution_payload_header" => Put::put(excl.latest_execution_payload_header_mut(), new), "next_withdrawal_index" => Put::put(excl.next_withdrawal_index_mut(), new), "next_withdrawal_validator_index" => Put::put(excl.next_withdrawal_validator_index_mut(), new), "historical_summaries" => Put::put(excl.historical_summaries_mut(), new), _ => panic!("{field}") };
            r.writes.push(("exclusive", there, bytes(&y)));
        }
        Fork::Bellatrix => {
            let x = ec::bellatrix::minimal::BeaconState::deserialize(b).map_err(|e| format!("{e:?}"))?;
            let mut own = types::minimal::BeaconState::Bellatrix(x.clone());
            r.version.push(("value", format!("{:?}", own.version())));
            r.root.push(("value", root(&own)));
            r.reads.push(("value", "genesis_time", Show::show(own.genesis_time()))); r.reads.push(("value", "genesis_validators_root", Show::show(own.genesis_validators_root()))); r.reads.push(("value", "slot", Show::show(own.slot()))); r.reads.push(("value", "fork", Show::show(own.fork()))); r.reads.push(("value", "latest_block_header", Show::show(own.latest_block_header()))); r.reads.push(("value", "block_roots", Show::show(own.block_roots()))); r.reads.push(("value", "state_roots", Show::show(own.state_roots()))); r.reads.push(("value", "historical_roots", Show::show(own.historical_roots()))); r.reads.push(("value", "eth1_data", Show::show(own.eth1_data()))); r.reads.push(("value", "eth1_data_votes", Show::show(own.eth1_data_votes()))); r.reads.push(("value", "eth1_deposit_index", Show::show(own.eth1_deposit_index()))); r.reads.push(("value", "validators", Show::show(own.validators()))); r.reads.push(("value", "balances", Show::show(own.balances()))); r.reads.push(("value", "randao_mixes", Show::show(own.randao_mixes()))); r.reads.push(("value", "slashings", Show::show(own.slashings()))); r.reads.push(("value", "previous_epoch_attestations", Show::show(own.previous_epoch_attestations()))); r.reads.push(("value", "current_epoch_attestations", Show::show(own.current_epoch_attestations()))); r.reads.push(("value", "justification_bits", Show::show(own.justification_bits()))); r.reads.push(("value", "previous_justified_checkpoint", Show::show(own.previous_justified_checkpoint()))); r.reads.push(("value", "current_justified_checkpoint", Show::show(own.current_justified_checkpoint()))); r.reads.push(("value", "finalized_checkpoint", Show::show(own.finalized_checkpoint()))); r.reads.push(("value", "previous_epoch_participation", Show::show(own.previous_epoch_participation()))); r.reads.push(("value", "current_epoch_participation", Show::show(own.current_epoch_participation()))); r.reads.push(("value", "inactivity_scores", Show::show(own.inactivity_scores()))); r.reads.push(("value", "current_sync_committee", Show::show(own.current_sync_committee()))); r.reads.push(("value", "next_sync_committee", Show::show(own.next_sync_committee()))); r.reads.push(("value", "latest_execution_payload_header", Show::show(own.latest_execution_payload_header()))); r.reads.push(("value", "next_withdrawal_index", Show::show(own.next_withdrawal_index()))); r.reads.push(("value", "next_withdrawal_validator_index", Show::show(own.next_withdrawal_validator_index()))); r.reads.push(("value", "historical_summaries", Show::show(own.historical_summaries())));
            if let Some(y) = own.phase0() { r.conversions.push(("value", "phase0", bytes(y))); } if let Some(y) = own.altair() { r.conversions.push(("value", "altair", bytes(y))); } if let Some(y) = own.bellatrix() { r.conversions.push(("value", "bellatrix", bytes(y))); } if let Some(y) = own.capella() { r.conversions.push(("value", "capella", bytes(y))); } if let Some(y) = own.deneb() { r.conversions.push(("value", "deneb", bytes(y))); }
            r.ssz = bytes(&own);
            r.json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
            let tree: serde_json::Value = serde_json::from_str(&r.json).map_err(|e| e.to_string())?;
            for back in [serde_json::from_str::<types::minimal::BeaconState>(&r.json), serde_json::from_value(tree)] {
                r.back.push(back.map(|x| (format!("{:?}", x.version()), bytes(&x))).map_err(|e| e.to_string()));
            }
            let there = match field { "genesis_time" => Put::put(own.genesis_time_mut(), new), "genesis_validators_root" => Put::put(own.genesis_validators_root_mut(), new), "slot" => Put::put(own.slot_mut(), new), "fork" => Put::put(own.fork_mut(), new), "latest_block_header" => Put::put(own.latest_block_header_mut(), new), "block_roots" => Put::put(own.block_roots_mut(), new), "state_roots" => Put::put(own.state_roots_mut(), new), "historical_roots" => Put::put(own.historical_roots_mut(), new), "eth1_data" => Put::put(own.eth1_data_mut(), new), "eth1_data_votes" => Put::put(own.eth1_data_votes_mut(), new), "eth1_deposit_index" => Put::put(own.eth1_deposit_index_mut(), new), "validators" => Put::put(own.validators_mut(), new), "balances" => Put::put(own.balances_mut(), new), "randao_mixes" => Put::put(own.randao_mixes_mut(), new), "slashings" => Put::put(own.slashings_mut(), new), "previous_epoch_attestations" => Put::put(own.previous_epoch_attestations_mut(), new), "current_epoch_attestations" => Put::put(own.current_epoch_attestations_mut(), new), "justification_bits" => Put::put(own.justification_bits_mut(), new), "previous_justified_checkpoint" => Put::put(own.previous_justified_checkpoint_mut(), new), "current_justified_checkpoint" => Put::put(own.current_justified_checkpoint_mut(), new), "finalized_checkpoint" => Put::put(own.finalized_checkpoint_mut(), new), "previous_epoch_participation" => Put::put(own.previous_epoch_participation_mut(), new), "current_epoch_participation" => Put::put(own.current_epoch_participation_mut(), new), "inactivity_scores" => Put::put(own.inactivity_scores_mut(), new), "current_sync_committee" => Put::put(own.current_sync_committee_mut(), new), "next_sync_committee" => Put::put(own.next_sync_committee_mut(), new), "latest_execution_payload_header" => Put::put(own.latest_execution_payload_header_mut(), new), "next_withdrawal_index" => Put::put(own.next_withdrawal_index_mut(), new), "next_withdrawal_validator_index" => Put::put(own.next_withdrawal_validator_index_mut(), new), "historical_summaries" => Put::put(own.historical_summaries_mut(), new), _ => panic!("{field}") };
            r.writes.push(("value", there, bytes(&own)));
            let mut own = types::minimal::BeaconState::Bellatrix(x.clone());
            r.conversions.extend(own.bellatrix_mut().map(|y| ("value to write", "bellatrix", bytes(y))));
            if own.phase0_mut().is_some() { r.conversions.push(("value to write", "phase0", vec![])); }
            if own.altair_mut().is_some() { r.conversions.push(("value to write", "altair", vec![])); }
            if own.capella_mut().is_some() { r.conversions.push(("value to write", "capella", vec![])); }
            if own.deneb_mut().is_some() { r.conversions.push(("value to write", "deneb", vec![])); }
            let shared = types::BeaconStateRef::<{ ec::deneb::minimal::SLOTS_PER_HISTORICAL_ROOT }, { ec::deneb::minimal::HISTORICAL_ROOTS_LIMIT }, { ec::deneb::minimal::ETH1_DATA_VOTES_BOUND }, { ec::deneb::minimal::VALIDATOR_REGISTRY_LIMIT }, { ec::deneb::minimal::EPOCHS_PER_HISTORICAL_VECTOR }, { ec::deneb::minimal::EPOCHS_PER_SLASHINGS_VECTOR }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::phase0::minimal::PENDING_ATTESTATIONS_BOUND }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }>::from(&x);
            r.version.push(("shared", format!("{:?}", shared.version())));
            r.root.push(("shared", root(&shared)));
            r.reads.push(("shared", "genesis_time", Show::show(shared.genesis_time()))); r.reads.push(("shared", "genesis_validators_root", Show::show(shared.genesis_validators_root()))); r.reads.push(("shared", "slot", Show::show(shared.slot()))); r.reads.push(("shared", "fork", Show::show(shared.fork()))); r.reads.push(("shared", "latest_block_header", Show::show(shared.latest_block_header()))); r.reads.push(("shared", "block_roots", Show::show(shared.block_roots()))); r.reads.push(("shared", "state_roots", Show::show(shared.state_roots()))); r.reads.push(("shared", "historical_roots", Show::show(shared.historical_roots()))); r.reads.push(("shared", "eth1_data", Show::show(shared.eth1_data()))); r.reads.push(("shared", "eth1_data_votes", Show::show(shared.eth1_data_votes()))); r.reads.push(("shared", "eth1_deposit_index", Show::show(shared.eth1_deposit_index()))); r.reads.push(("shared", "validators", Show::show(shared.validators()))); r.reads.push(("shared", "balances", Show::show(shared.balances()))); r.reads.push(("shared", "randao_mixes", Show::show(shared.randao_mixes()))); r.reads.push(("shared", "slashings", Show::show(shared.slashings()))); r.reads.push(("shared", "previous_epoch_attestations", Show::show(shared.previous_epoch_attestations()))); r.reads.push(("shared", "current_epoch_attestations", Show::show(shared.current_epoch_attestations()))); r.reads.push(("shared", "justification_bits", Show::show(shared.justification_bits()))); r.reads.push(("shared", "previous_justified_checkpoint", Show::show(shared.previous_justified_checkpoint()))); r.reads.push(("shared", "current_justified_checkpoint", Show::show(shared.current_justified_checkpoint()))); r.reads.push(("shared", "finalized_checkpoint", Show::show(shared.finalized_checkpoint()))); r.reads.push(("shared", "previous_epoch_participation", Show::show(shared.previous_epoch_participation()))); r.reads.push(("shared", "current_epoch_participation", Show::show(shared.current_epoch_participation()))); r.reads.push(("shared", "inactivity_scores", Show::show(shared.inactivity_scores()))); r.reads.push(("shared", "current_sync_committee", Show::show(shared.current_sync_committee()))); r.reads.push(("shared", "next_sync_committee", Show::show(shared.next_sync_committee()))); r.reads.push(("shared", "latest_execution_payload_header", Show::show(shared.latest_execution_payload_header()))); r.reads.push(("shared", "next_withdrawal_index", Show::show(shared.next_withdrawal_index()))); r.reads.push(("shared", "next_withdrawal_validator_index", Show::show(shared.next_withdrawal_validator_index()))); r.reads.push(("shared", "historical_summaries", Show::show(shared.historical_summaries())));
            if let Some(y) = shared.phase0() { r.conversions.push(("shared", "phase0", bytes(y))); } if let Some(y) = shared.altair() { r.conversions.push(("shared", "altair", bytes(y))); } if let Some(y) = shared.bellatrix() { r.conversions.push(("shared", "bellatrix", bytes(y))); } if let Some(y) = shared.capella() { r.conversions.push(("shared", "capella", bytes(y))); } if let Some(y) = shared.deneb() { r.conversions.push(("shared", "deneb", bytes(y))); }
            let mut y = x.clone();
            let mut excl = types::BeaconStateRefMut::<{ ec::deneb::minimal::SLOTS_PER_HISTORICAL_ROOT }, { ec::deneb::minimal::HISTORICAL_ROOTS_LIMIT }, { ec::deneb::minimal::ETH1_DATA_VOTES_BOUND }, { ec::deneb::minimal::VALIDATOR_REGISTRY_LIMIT }, { ec::deneb::minimal::EPOCHS_PER_HISTORICAL_VECTOR }, { ec::deneb::minimal::EPOCHS_PER_SLASHINGS_VECTOR }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::phase0::minimal::PENDING_ATTESTATIONS_BOUND }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }>::from(&mut y);
            r.version.push(("exclusive", format!("{:?}", excl.version())));
            r.root.push(("exclusive", root(&excl)));
            r.reads.push(("exclusive", "genesis_time", Show::show(excl.genesis_time()))); r.reads.push(("exclusive", "genesis_validators_root", Show::show(excl.genesis_validators_root()))); r.reads.push(("exclusive", "slot", Show::show(excl.slot()))); r.reads.push(("exclusive", "fork", Show::show(excl.fork()))); r.reads.push(("exclusive", "latest_block_header", Show::show(excl.latest_block_header()))); r.reads.push(("exclusive", "block_roots", Show::show(excl.block_roots()))); r.reads.push(("exclusive", "state_roots", Show::show(excl.state_roots()))); r.reads.push(("exclusive", "historical_roots", Show::show(excl.historical_roots()))); r.reads.push(("exclusive", "eth1_data", Show::show(excl.eth1_data()))); r.reads.push(("exclusive", "eth1_data_votes", Show::show(excl.eth1_data_votes()))); r.reads.push(("exclusive", "eth1_deposit_index", Show::show(excl.eth1_deposit_index()))); r.reads.push(("exclusive", "validators", Show::show(excl.validators()))); r.reads.push(("exclusive", "balances", Show::show(excl.balances()))); r.reads.push(("exclusive", "randao_mixes", Show::show(excl.randao_mixes()))); r.reads.push(("exclusive", "slashings", Show::show(excl.slashings()))); r.reads.push(("exclusive", "previous_epoch_attestations", Show::show(excl.previous_epoch_attestations()))); r.reads.push(("exclusive", "current_epoch_attestations", Show::show(excl.current_epoch_attestations()))); r.reads.push(("exclusive", "justification_bits", Show::show(excl.justification_bits()))); r.reads.push(("exclusive", "previous_justified_checkpoint", Show::show(excl.previous_justified_checkpoint()))); r.reads.push(("exclusive", "current_justified_checkpoint", Show::show(excl.current_justified_checkpoint()))); r.reads.push(("exclusive", "finalized_checkpoint", Show::show(excl.finalized_checkpoint()))); r.reads.push(("exclusive", "previous_epoch_participation", Show::show(excl.previous_epoch_participation()))); r.reads.push(("exclusive", "current_epoch_participation", Show::show(excl.current_epoch_participation()))); r.reads.push(("exclusive", "inactivity_scores", Show::show(excl.inactivity_scores()))); r.reads.push(("exclusive", "current_sync_committee", Show::show(excl.current_sync_committee()))); r.reads.push(("exclusive", "next_sync_committee", Show::show(excl.next_sync_committee()))); r.reads.push(("exclusive", "latest_execution_payload_header", Show::show(excl.latest_execution_payload_header()))); r.reads.push(("exclusive", "next_withdrawal_index", Show::show(excl.next_withdrawal_index()))); r.reads.push(("exclusive", "next_withdrawal_validator_index", Show::show(excl.next_withdrawal_validator_index()))); r.reads.push(("exclusive", "historical_summaries", Show::show(excl.historical_summaries())));
            if let Some(y) = excl.phase0() { r.conversions.push(("exclusive", "phase0", bytes(y))); } if let Some(y) = excl.altair() { r.conversions.push(("exclusive", "altair", bytes(y))); } if let Some(y) = excl.bellatrix() { r.conversions.push(("exclusive", "bellatrix", bytes(y))); } if let Some(y) = excl.capella() { r.conversions.push(("exclusive", "capella", bytes(y))); } if let Some(y) = excl.deneb() { r.conversions.push(("exclusive", "deneb", bytes(y))); }
            let there = match field { "genesis_time" => Put::put(excl.genesis_time_mut(), new), "genesis_validators_root" => Put::put(excl.genesis_validators_root_mut(), new), "slot" => Put::put(excl.slot_mut(), new), "fork" => Put::put(excl.fork_mut(), new), "latest_block_header" => Put::put(excl.latest_block_header_mut(), new), "block_roots" => Put::put(excl.block_roots_mut(), new), "state_roots" => Put::put(excl.state_roots_mut(), new), "historical_roots" => Put::put(excl.historical_roots_mut(), new), "eth1_data" => Put::put(excl.eth1_data_mut(), new), "eth1_data_votes" => Put::put(excl.eth1_data_votes_mut(), new), "eth1_deposit_index" => Put::put(excl.eth1_deposit_index_mut(), new), "validators" => Put::put(excl.validators_mut(), new), "balances" => Put::put(excl.balances_mut(), new), "randao_mixes" => Put::put(excl.randao_mixes_mut(), new), "slashings" => Put::put(excl.slashings_mut(), new), "previous_epoch_attestations" => Put::put(excl.previous_epoch_attestations_mut(), new), "current_epoch_attestations" => Put::put(excl.current_epoch_attestations_mut(), new), "justification_bits" => Put::put(excl.justification_bits_mut(), new), "previous_justified_checkpoint" => Put::put(excl.previous_justified_checkpoint_mut(), new), "current_justified_checkpoint" => Put::put(excl.current_justified_checkpoint_mut(), new), "finalized_checkpoint" => Put::put(excl.finalized_checkpoint_mut(), new), "previous_epoch_participation" => Put::put(excl.previous_epoch_participation_mut(), new), "current_epoch_participation" => Put::put(excl.current_epoch_participation_mut(), new), "inactivity_scores" => Put::put(excl.inactivity_scores_mut(), new), "current_sync_committee" => Put::put(excl.current_sync_committee_mut(), new), "next_sync_committee" => Put::put(excl.next_sync_committee_mut(), new), "latest_execution_payload_header" => Put::put(excl.latest_execution_payload_header_mut(), new), "next_withdrawal_index" => Put::put(excl.next_withdrawal_index_mut(), new), "next_withdrawal_validator_index" => Put::put(excl.next_withdrawal_validator_index_mut(), new), "historical_summaries" => Put::put(excl.historical_summaries_mut(), new), _ => panic!("{field}") };
            r.writes.push(("exclusive", there, bytes(&y)));
        }
        Fork::Capella => {
            let x = ec::capella::minimal::BeaconState::deserialize(b).map_err(|e| format!("{e:?}"))?;
            let mut own = types::minimal::BeaconState::Capella(x.clone());
            r.version.push(("value", format!("{:?}", own.version())));
            r.root.push(("value", root(&own)));
            r.reads.push(("value", "genesis_time", Show::show(own.genesis_time()))); r.reads.push(("value", "genesis_validators_root", Show::show(own.genesis_validators_root()))); r.reads.push(("value", "slot", Show::show(own.slot()))); r.reads.push(("value", "fork", Show::show(own.fork()))); r.reads.push(("value", "latest_block_header", Show::show(own.latest_block_header()))); r.reads.push(("value", "block_roots", Show::show(own.block_roots()))); r.reads.push(("value", "state_roots", Show::show(own.state_roots()))); r.reads.push(("value", "historical_roots", Show::show(own.historical_roots()))); r.reads.push(("value", "eth1_data", Show::show(own.eth1_data()))); r.reads.push(("value", "eth1_data_votes", Show::show(own.eth1_data_votes()))); r.reads.push(("value", "eth1_deposit_index", Show::show(own.eth1_deposit_index()))); r.reads.push(("value", "validators", Show::show(own.validators()))); r.reads.push(("value", "balances", Show::show(own.balances()))); r.reads.push(("value", "randao_mixes", Show::show(own.randao_mixes()))); r.reads.push(("value", "slashings", Show::show(own.slashings()))); r.reads.push(("value", "previous_epoch_attestations", Show::show(own.previous_epoch_attestations()))); r.reads.push(("value", "current_epoch_attestations", Show::show(own.current_epoch_attestations()))); r.reads.push(("value", "justification_bits", Show::show(own.justification_bits()))); r.reads.push(("value", "previous_justified_checkpoint", Show::show(own.previous_justified_checkpoint()))); r.reads.push(("value", "current_justified_checkpoint", Show::show(own.current_justified_checkpoint()))); r.reads.push(("value", "finalized_checkpoint", Show::show(own.finalized_checkpoint()))); r.reads.push(("value", "previous_epoch_participation", Show::show(own.previous_epoch_participation()))); r.reads.push(("value", "current_epoch_participation", Show::show(own.current_epoch_participation()))); r.reads.push(("value", "inactivity_scores", Show::show(own.inactivity_scores()))); r.reads.push(("value", "current_sync_committee", Show::show(own.current_sync_committee()))); r.reads.push(("value", "next_sync_committee", Show::show(own.next_sync_committee()))); r.reads.push(("value", "latest_execution_payload_header", Show::show(own.latest_execution_payload_header()))); r.reads.push(("value", "next_withdrawal_index", Show::show(own.next_withdrawal_index()))); r.reads.push(("value", "next_withdrawal_validator_index", Show::show(own.next_withdrawal_validator_index()))); r.reads.push(("value", "historical_summaries", Show::show(own.historical_summaries())));
            if let Some(y) = own.phase0() { r.conversions.push(("value", "phase0", bytes(y))); } if let Some(y) = own.altair() { r.conversions.push(("value", "altair", bytes(y))); } if let Some(y) = own.bellatrix() { r.conversions.push(("value", "bellatrix", bytes(y))); } if let Some(y) = own.capella() { r.conversions.push(("value", "capella", bytes(y))); } if let Some(y) = own.deneb() { r.conversions.push(("value", "deneb", bytes(y))); }
            r.ssz = bytes(&own);
            r.json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
            let tree: serde_json::Value = serde_json::from_str(&r.json).map_err(|e| e.to_string())?;
            for back in [serde_json::from_str::<types::minimal::BeaconState>(&r.json), serde_json::from_value(tree)] {
                r.back.push(back.map(|x| (format!("{:?}", x.version()), bytes(&x))).map_err(|e| e.to_string()));
            }
            let there = match field { "genesis_time" => Put::put(own.genesis_time_mut(), new), "genesis_validators_root" => Put::put(own.genesis_validators_root_mut(), new), "slot" => Put::put(own.slot_mut(), new), "fork" => Put::put(own.fork_mut(), new), "latest_block_header" => Put::put(own.latest_block_header_mut(), new), "block_roots" => Put::put(own.block_roots_mut(), new), "state_roots" => Put::put(own.state_roots_mut(), new), "historical_roots" => Put::put(own.historical_roots_mut(), new), "eth1_data" => Put::put(own.eth1_data_mut(), new), "eth1_data_votes" => Put::put(own.eth1_data_votes_mut(), new), "eth1_deposit_index" => Put::put(own.eth1_deposit_index_mut(), new), "validators" => Put::put(own.validators_mut(), new), "balances" => Put::put(own.balances_mut(), new), "randao_mixes" => Put::put(own.randao_mixes_mut(), new), "slashings" => Put::put(own.slashings_mut(), new), "previous_epoch_attestations" => Put::put(own.previous_epoch_attestations_mut(), new), "current_epoch_attestations" => Put::put(own.current_epoch_attestations_mut(), new), "justification_bits" => Put::put(own.justification_bits_mut(), new), "previous_justified_checkpoint" => Put::put(own.previous_justified_checkpoint_mut(), new), "current_justified_checkpoint" => Put::put(own.current_justified_checkpoint_mut(), new), "finalized_checkpoint" => Put::put(own.finalized_checkpoint_mut(), new), "previous_epoch_participation" => Put::put(own.previous_epoch_participation_mut(), new), "current_epoch_participation" => Put::put(own.current_epoch_participation_mut(), new), "inactivity_scores" => Put::put(own.inactivity_scores_mut(), new), "current_sync_committee" => Put::put(own.current_sync_committee_mut(), new), "next_sync_committee" => Put::put(own.next_sync_committee_mut(), new), "latest_execution_payload_header" => Put::put(own.latest_execution_payload_header_mut(), new), "next_withdrawal_index" => Put::put(own.next_withdrawal_index_mut(), new), "next_withdrawal_validator_index" => Put::put(own.next_withdrawal_validator_index_mut(), new), "historical_summaries" => Put::put(own.historical_summaries_mut(), new), _ => panic!("{field}") };
            r.writes.push(("value", there, bytes(&own)));
            let mut own = types::minimal::BeaconState::Capella(x.clone());
            r.conversions.extend(own.capella_mut().map(|y| ("value to write", "capella", bytes(y))));
            if own.phase0_mut().is_some() { r.conversions.push(("value to write", "phase0", vec![])); }
            if own.altair_mut().is_some() { r.conversions.push(("value to write", "altair", vec![])); }
            if own.bellatrix_mut().is_some() { r.conversions.push(("value to write", "bellatrix", vec![])); }
            if own.deneb_mut().is_some() { r.conversions.push(("value to write", "deneb", vec![])); }
            let shared = types::BeaconStateRef::<{ ec::deneb::minimal::SLOTS_PER_HISTORICAL_ROOT }, { ec::deneb::minimal::HISTORICAL_ROOTS_LIMIT }, { ec::deneb::minimal::ETH1_DATA_VOTES_BOUND }, { ec::deneb::minimal::VALIDATOR_REGISTRY_LIMIT }, { ec::deneb::minimal::EPOCHS_PER_HISTORICAL_VECTOR }, { ec::deneb::minimal::EPOCHS_PER_SLASHINGS_VECTOR }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::phase0::minimal::PENDING_ATTESTATIONS_BOUND }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }>::from(&x);
            r.version.push(("shared", format!("{:?}", shared.version())));
            r.root.push(("shared", root(&shared)));
            r.reads.push(("shared", "genesis_time", Show::show(shared.genesis_time()))); r.reads.push(("shared", "genesis_validators_root", Show::show(shared.genesis_validators_root()))); r.reads.push(("shared", "slot", Show::show(shared.slot()))); r.reads.push(("shared", "fork", Show::show(shared.fork()))); r.reads.push(("shared", "latest_block_header", Show::show(shared.latest_block_header()))); r.reads.push(("shared", "block_roots", Show::show(shared.block_roots()))); r.reads.push(("shared", "state_roots", Show::show(shared.state_roots()))); r.reads.push(("shared", "historical_roots", Show::show(shared.historical_roots()))); r.reads.push(("shared", "eth1_data", Show::show(shared.eth1_data()))); r.reads.push(("shared", "eth1_data_votes", Show::show(shared.eth1_data_votes()))); r.reads.push(("shared", "eth1_deposit_index", Show::show(shared.eth1_deposit_index()))); r.reads.push(("shared", "validators", Show::show(shared.validators()))); r.reads.push(("shared", "balances", Show::show(shared.balances()))); r.reads.push(("shared", "randao_mixes", Show::show(shared.randao_mixes()))); r.reads.push(("shared", "slashings", Show::show(shared.slashings()))); r.reads.push(("shared", "previous_epoch_attestations", Show::show(shared.previous_epoch_attestations()))); r.reads.push(("shared", "current_epoch_attestations", Show::show(shared.current_epoch_attestations()))); r.reads.push(("shared", "justification_bits", Show::show(shared.justification_bits()))); r.reads.push(("shared", "previous_justified_checkpoint", Show::show(shared.previous_justified_checkpoint()))); r.reads.push(("shared", "current_justified_checkpoint", Show::show(shared.current_justified_checkpoint()))); r.reads.push(("shared", "finalized_checkpoint", Show::show(shared.finalized_checkpoint()))); r.reads.push(("shared", "previous_epoch_participation", Show::show(shared.previous_epoch_participation()))); r.reads.push(("shared", "current_epoch_participation", Show::show(shared.current_epoch_participation()))); r.reads.push(("shared", "inactivity_scores", Show::show(shared.inactivity_scores()))); r.reads.push(("shared", "current_sync_committee", Show::show(shared.current_sync_committee()))); r.reads.push(("shared", "next_sync_committee", Show::show(shared.next_sync_committee()))); r.reads.push(("shared", "latest_execution_payload_header", Show::show(shared.latest_execution_payload_header()))); r.reads.push(("shared", "next_withdrawal_index", Show::show(shared.next_withdrawal_index()))); r.reads.push(("shared", "next_withdrawal_validator_index", Show::show(shared.next_withdrawal_validator_index()))); r.reads.push(("shared", "historical_summaries", Show::show(shared.historical_summaries())));
            if let Some(y) = shared.phase0() { r.conversions.push(("shared", "phase0", bytes(y))); } if let Some(y) = shared.altair() { r.conversions.push(("shared", "altair", bytes(y))); } if let Some(y) = shared.bellatrix() { r.conversions.push(("shared", "bellatrix", bytes(y))); } if let Some(y) = shared.capella() { r.conversions.push(("shared", "capella", bytes(y))); } if let Some(y) = shared.deneb() { r.conversions.push(("shared", "deneb", bytes(y))); }
            let mut y = x.clone();
            let mut excl = types::BeaconStateRefMut::<{ ec::deneb::minimal::SLOTS_PER_HISTORICAL_ROOT }, { ec::deneb::minimal::HISTORICAL_ROOTS_LIMIT }, { ec::deneb::minimal::ETH1_DATA_VOTES_BOUND }, { ec::deneb::minimal::VALIDATOR_REGISTRY_LIMIT }, { ec::deneb::minimal::EPOCHS_PER_HISTORICAL_VECTOR }, { ec::deneb::minimal::EPOCHS_PER_SLASHINGS_VECTOR }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::phase0::minimal::PENDING_ATTESTATIONS_BOUND }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }>::from(&mut y);
            r.version.push(("exclusive", format!("{:?}", excl.version())));
            r.root.push(("exclusive", root(&excl)));
            r.reads.push(("exclusive", "genesis_time", Show::show(excl.genesis_time()))); r.reads.push(("exclusive", "genesis_validators_root", Show::show(excl.genesis_validators_root()))); r.reads.push(("exclusive", "slot", Show::show(excl.slot()))); r.reads.push(("exclusive", "fork", Show::show(excl.fork()))); r.reads.push(("exclusive", "latest_block_header", Show::show(excl.latest_block_header()))); r.reads.push(("exclusive", "block_roots", Show::show(excl.block_roots()))); r.reads.push(("exclusive", "state_roots", Show::show(excl.state_roots()))); r.reads.push(("exclusive", "historical_roots", Show::show(excl.historical_roots()))); r.reads.push(("exclusive", "eth1_data", Show::show(excl.eth1_data()))); r.reads.push(("exclusive", "eth1_data_votes", Show::show(excl.eth1_data_votes()))); r.reads.push(("exclusive", "eth1_deposit_index", Show::show(excl.eth1_deposit_index()))); r.reads.push(("exclusive", "validators", Show::show(excl.validators()))); r.reads.push(("exclusive", "balances", Show::show(excl.balances()))); r.reads.push(("exclusive", "randao_mixes", Show::show(excl.randao_mixes()))); r.reads.push(("exclusive", "slashings", Show::show(excl.slashings()))); r.reads.push(("exclusive", "previous_epoch_attestations", Show::show(excl.previous_epoch_attestations()))); r.reads.push(("exclusive", "current_epoch_attestations", Show::show(excl.current_epoch_attestations()))); r.reads.push(("exclusive", "justification_bits", Show::show(excl.justification_bits()))); r.reads.push(("exclusive", "previous_justified_checkpoint", Show::show(excl.previous_justified_checkpoint()))); r.reads.push(("exclusive", "current_justified_checkpoint", Show::show(excl.current_justified_checkpoint()))); r.reads.push(("exclusive", "finalized_checkpoint", Show::show(excl.finalized_checkpoint()))); r.reads.push(("exclusive", "previous_epoch_participation", Show::show(excl.previous_epoch_participation()))); r.reads.push(("exclusive", "current_epoch_participation", Show::show(excl.current_epoch_participation()))); r.reads.push(("exclusive", "inactivity_scores", Show::show(excl.inactivity_scores()))); r.reads.push(("exclusive", "current_sync_committee", Show::show(excl.current_sync_committee()))); r.reads.push(("exclusive", "next_sync_committee", Show::show(excl.next_sync_committee()))); r.reads.push(("exclusive", "latest_execution_payload_header", Show::show(excl.latest_execution_payload_header()))); r.reads.push(("exclusive", "next_withdrawal_index", Show::show(excl.next_withdrawal_index()))); r.reads.push(("exclusive", "next_withdrawal_validator_index", Show::show(excl.next_withdrawal_validator_index()))); r.reads.push(("exclusive", "historical_summaries", Show::show(excl.historical_summaries())));
            if let Some(y) = excl.phase0() { r.conversions.push(("exclusive", "phase0", bytes(y))); } if let Some(y) = excl.altair() { r.conversions.push(("exclusive", "altair", bytes(y))); } if let Some(y) = excl.bellatrix() { r.conversions.push(("exclusive", "bellatrix", bytes(y))); } if let Some(y) = excl.capella() { r.conversions.push(("exclusive", "capella", bytes(y))); } if let Some(y) = excl.deneb() { r.conversions.push(("exclusive", "deneb", bytes(y))); }
            let there = match field { "genesis_time" => Put::put(excl.genesis_time_mut(), new), "genesis_validators_root" => Put::put(excl.genesis_validators_root_mut(), new), "slot" => Put::put(excl.slot_mut(), new), "fork" => Put::put(excl.fork_mut(), new), "latest_block_header" => Put::put(excl.latest_block_header_mut(), new), "block_roots" => Put::put(excl.block_roots_mut(), new), "state_roots" => Put::put(excl.state_roots_mut(), new), "historical_roots" => Put::put(excl.historical_roots_mut(), new), "eth1_data" => Put::put(excl.eth1_data_mut(), new), "eth1_data_votes" => Put::put(excl.eth1_data_votes_mut(), new), "eth1_deposit_index" => Put::put(excl.eth1_deposit_index_mut(), new), "validators" => Put::put(excl.validators_mut(), new), "balances" => Put::put(excl.balances_mut(), new), "randao_mixes" => Put::put(excl.randao_mixes_mut(), new), "slashings" => Put::put(excl.slashings_mut(), new), "previous_epoch_attestations" => Put::put(excl.previous_epoch_attestations_mut(), new), "current_epoch_attestations" => Put::put(excl.current_epoch_attestations_mut(), new), "justification_bits" => Put::put(excl.justification_bits_mut(), new), "previous_justified_checkpoint" => Put::put(excl.previous_justified_checkpoint_mut(), new), "current_justified_checkpoint" => Put::put(excl.current_justified_checkpoint_mut(), new), "finalized_checkpoint" => Put::put(excl.finalized_checkpoint_mut(), new), "previous_epoch_participation" => Put::put(excl.previous_epoch_participation_mut(), new), "current_epoch_participation" => Put::put(excl.current_epoch_participation_mut(), new), "inactivity_scores" => Put::put(excl.inactivity_scores_mut(), new), "current_sync_committee" => Put::put(excl.current_sync_committee_mut(), new), "next_sync_committee" => Put::put(excl.next_sync_committee_mut(), new), "latest_execution_payload_header" => Put::put(excl.latest_execution_payload_header_mut(), new), "next_withdrawal_index" => Put::put(excl.next_withdrawal_index_mut(), new), "next_withdrawal_validator_index" => Put::put(excl.next_withdrawal_validator_index_mut(), new), "historical_summaries" => Put::put(excl.historical_summaries_mut(), new), _ => panic!("{field}") };
            r.writes.push(("exclusive", there, bytes(&y)));
        }
        Fork::Deneb => {
            let x = ec::deneb::minimal::BeaconState::deserialize(b).map_err(|e| format!("{e:?}"))?;
            let mut own = types::minimal::BeaconState::Deneb(x.clone());
            r.version.push(("value", format!("{:?}", own.version())));
            r.root.push(("value", root(&own)));
            r.reads.push(("value", "genesis_time", Show::show(own.genesis_time()))); r.reads.push(("value", "genesis_validators_root", Show::show(own.genesis_validators_root()))); r.reads.push(("value", "slot", Show::show(own.slot()))); r.reads.push(("value", "fork", Show::show(own.fork()))); r.reads.push(("value", "latest_block_header", Show::show(own.latest_block_header()))); r.reads.push(("value", "block_roots", Show::show(own.block_roots()))); r.reads.push(("value", "state_roots", Show::show(own.state_roots()))); r.reads.push(("value", "historical_roots", Show::show(own.historical_roots()))); r.reads.push(("value", "eth1_data", Show::show(own.eth1_data()))); r.reads.push(("value", "eth1_data_votes", Show::show(own.eth1_data_votes()))); r.reads.push(("value", "eth1_deposit_index", Show::show(own.eth1_deposit_index()))); r.reads.push(("value", "validators", Show::show(own.validators()))); r.reads.push(("value", "balances", Show::show(own.balances()))); r.reads.push(("value", "randao_mixes", Show::show(own.randao_mixes()))); r.reads.push(("value", "slashings", Show::show(own.slashings()))); r.reads.push(("value", "previous_epoch_attestations", Show::show(own.previous_epoch_attestations()))); r.reads.push(("value", "current_epoch_attestations", Show::show(own.current_epoch_attestations()))); r.reads.push(("value", "justification_bits", Show::show(own.justification_bits()))); r.reads.push(("value", "previous_justified_checkpoint", Show::show(own.previous_justified_checkpoint()))); r.reads.push(("value", "current_justified_checkpoint", Show::show(own.current_justified_checkpoint()))); r.reads.push(("value", "finalized_checkpoint", Show::show(own.finalized_checkpoint()))); r.reads.push(("value", "previous_epoch_participation", Show::show(own.previous_epoch_participation()))); r.reads.push(("value", "current_epoch_participation", Show::show(own.current_epoch_participation()))); r.reads.push(("value", "inactivity_scores", Show::show(own.inactivity_scores()))); r.reads.push(("value", "current_sync_committee", Show::show(own.current_sync_committee()))); r.reads.push(("value", "next_sync_committee", Show::show(own.next_sync_committee()))); r.reads.push(("value", "latest_execution_payload_header", Show::show(own.latest_execution_payload_header()))); r.reads.push(("value", "next_withdrawal_index", Show::show(own.next_withdrawal_index()))); r.reads.push(("value", "next_withdrawal_validator_index", Show::show(own.next_withdrawal_validator_index()))); r.reads.push(("value", "historical_summaries", Show::show(own.historical_summaries())));
            if let Some(y) = own.phase0() { r.conversions.push(("value", "phase0", bytes(y))); } if let Some(y) = own.altair() { r.conversions.push(("value", "altair", bytes(y))); } if let Some(y) = own.bellatrix() { r.conversions.push(("value", "bellatrix", bytes(y))); } if let Some(y) = own.capella() { r.conversions.push(("value", "capella", bytes(y))); } if let Some(y) = own.deneb() { r.conversions.push(("value", "deneb", bytes(y))); }
            r.ssz = bytes(&own);
            r.json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
            let tree: serde_json::Value = serde_json::from_str(&r.json).map_err(|e| e.to_string())?;
            for back in [serde_json::from_str::<types::minimal::BeaconState>(&r.json), serde_json::from_value(tree)] {
                r.back.push(back.map(|x| (format!("{:?}", x.version()), bytes(&x))).map_err(|e| e.to_string()));
            }
            let there = match field { "genesis_time" => Put::put(own.genesis_time_mut(), new), "genesis_validators_root" => Put::put(own.genesis_validators_root_mut(), new), "slot" => Put::put(own.slot_mut(), new), "fork" => Put::put(own.fork_mut(), new), "latest_block_header" => Put::put(own.latest_block_header_mut(), new), "block_roots" => Put::put(own.block_roots_mut(), new), "state_roots" => Put::put(own.state_roots_mut(), new), "historical_roots" => Put::put(own.historical_roots_mut(), new), "eth1_data" => Put::put(own.eth1_data_mut(), new), "eth1_data_votes" => Put::put(own.eth1_data_votes_mut(), new), "eth1_deposit_index" => Put::put(own.eth1_deposit_index_mut(), new), "validators" => Put::put(own.validators_mut(), new), "balances" => Put::put(own.balances_mut(), new), "randao_mixes" => Put::put(own.randao_mixes_mut(), new), "slashings" => Put::put(own.slashings_mut(), new), "previous_epoch_attestations" => Put::put(own.previous_epoch_attestations_mut(), new), "current_epoch_attestations" => Put::put(own.current_epoch_attestations_mut(), new), "justification_bits" => Put::put(own.justification_bits_mut(), new), "previous_justified_checkpoint" => Put::put(own.previous_justified_checkpoint_mut(), new), "current_justified_checkpoint" => Put::put(own.current_justified_checkpoint_mut(), new), "finalized_checkpoint" => Put::put(own.finalized_checkpoint_mut(), new), "previous_epoch_participation" => Put::put(own.previous_epoch_participation_mut(), new), "current_epoch_participation" => Put::put(own.current_epoch_participation_mut(), new), "inactivity_scores" => Put::put(own.inactivity_scores_mut(), new), "current_sync_committee" => Put::put(own.current_sync_committee_mut(), new), "next_sync_committee" => Put::put(own.next_sync_committee_mut(), new), "latest_execution_payload_header" => Put::put(own.latest_execution_payload_header_mut(), new), "next_withdrawal_index" => Put::put(own.next_withdrawal_index_mut(), new), "next_withdrawal_validator_index" => Put::put(own.next_withdrawal_validator_index_mut(), new), "historical_summaries" => Put::put(own.historical_summaries_mut(), new), _ => panic!("{field}") };
            r.writes.push(("value", there, bytes(&own)));
            let mut own = types::minimal::BeaconState::Deneb(x.clone());
            r.conversions.extend(own.deneb_mut().map(|y| ("value to write", "deneb", bytes(y))));
            if own.phase0_mut().is_some() { r.conversions.push(("value to write", "phase0", vec![])); }
            if own.altair_mut().is_some() { r.conversions.push(("value to write", "altair", vec![])); }
            if own.bellatrix_mut().is_some() { r.conversions.push(("value to write", "bellatrix", vec![])); }
            if own.capella_mut().is_some() { r.conversions.push(("value to write", "capella", vec![])); }
            let shared = types::BeaconStateRef::<{ ec::deneb::minimal::SLOTS_PER_HISTORICAL_ROOT }, { ec::deneb::minimal::HISTORICAL_ROOTS_LIMIT }, { ec::deneb::minimal::ETH1_DATA_VOTES_BOUND }, { ec::deneb::minimal::VALIDATOR_REGISTRY_LIMIT }, { ec::deneb::minimal::EPOCHS_PER_HISTORICAL_VECTOR }, { ec::deneb::minimal::EPOCHS_PER_SLASHINGS_VECTOR }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::phase0::minimal::PENDING_ATTESTATIONS_BOUND }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }>::from(&x);
            r.version.push(("shared", format!("{:?}", shared.version())));
            r.root.push(("shared", root(&shared)));
            r.reads.push(("shared", "genesis_time", Show::show(shared.genesis_time()))); r.reads.push(("shared", "genesis_validators_root", Show::show(shared.genesis_validators_root()))); r.reads.push(("shared", "slot", Show::show(shared.slot()))); r.reads.push(("shared", "fork", Show::show(shared.fork()))); r.reads.push(("shared", "latest_block_header", Show::show(shared.latest_block_header()))); r.reads.push(("shared", "block_roots", Show::show(shared.block_roots()))); r.reads.push(("shared", "state_roots", Show::show(shared.state_roots()))); r.reads.push(("shared", "historical_roots", Show::show(shared.historical_roots()))); r.reads.push(("shared", "eth1_data", Show::show(shared.eth1_data()))); r.reads.push(("shared", "eth1_data_votes", Show::show(shared.eth1_data_votes()))); r.reads.push(("shared", "eth1_deposit_index", Show::show(shared.eth1_deposit_index()))); r.reads.push(("shared", "validators", Show::show(shared.validators()))); r.reads.push(("shared", "balances", Show::show(shared.balances()))); r.reads.push(("shared", "randao_mixes", Show::show(shared.randao_mixes()))); r.reads.push(("shared", "slashings", Show::show(shared.slashings()))); r.reads.push(("shared", "previous_epoch_attestations", Show::show(shared.previous_epoch_attestations()))); r.reads.push(("shared", "current_epoch_attestations", Show::show(shared.current_epoch_attestations()))); r.reads.push(("shared", "justification_bits", Show::show(shared.justification_bits()))); r.reads.push(("shared", "previous_justified_checkpoint", Show::show(shared.previous_justified_checkpoint()))); r.reads.push(("shared", "current_justified_checkpoint", Show::show(shared.current_justified_checkpoint()))); r.reads.push(("shared", "finalized_checkpoint", Show::show(shared.finalized_checkpoint()))); r.reads.push(("shared", "previous_epoch_participation", Show::show(shared.previous_epoch_participation()))); r.reads.push(("shared", "current_epoch_participation", Show::show(shared.current_epoch_participation()))); r.reads.push(("shared", "inactivity_scores", Show::show(shared.inactivity_scores()))); r.reads.push(("shared", "current_sync_committee", Show::show(shared.current_sync_committee()))); r.reads.push(("shared", "next_sync_committee", Show::show(shared.next_sync_committee()))); r.reads.push(("shared", "latest_execution_payload_header", Show::show(shared.latest_execution_payload_header()))); r.reads.push(("shared", "next_withdrawal_index", Show::show(shared.next_withdrawal_index()))); r.reads.push(("shared", "next_withdrawal_validator_index", Show::show(shared.next_withdrawal_validator_index()))); r.reads.push(("shared", "historical_summaries", Show::show(shared.historical_summaries())));
            if let Some(y) = shared.phase0() { r.conversions.push(("shared", "phase0", bytes(y))); } if let Some(y) = shared.altair() { r.conversions.push(("shared", "altair", bytes(y))); } if let Some(y) = shared.bellatrix() { r.conversions.push(("shared", "bellatrix", bytes(y))); } if let Some(y) = shared.capella() { r.conversions.push(("shared", "capella", bytes(y))); } if let Some(y) = shared.deneb() { r.conversions.push(("shared", "deneb", bytes(y))); }
            let mut y = x.clone();
            let mut excl = types::BeaconStateRefMut::<{ ec::deneb::minimal::SLOTS_PER_HISTORICAL_ROOT }, { ec::deneb::minimal::HISTORICAL_ROOTS_LIMIT }, { ec::deneb::minimal::ETH1_DATA_VOTES_BOUND }, { ec::deneb::minimal::VALIDATOR_REGISTRY_LIMIT }, { ec::deneb::minimal::EPOCHS_PER_HISTORICAL_VECTOR }, { ec::deneb::minimal::EPOCHS_PER_SLASHINGS_VECTOR }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::phase0::minimal::PENDING_ATTESTATIONS_BOUND }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }>::from(&mut y);
            r.version.push(("exclusive", format!("{:?}", excl.version())));
            r.root.push(("exclusive", root(&excl)));
            r.reads.push(("exclusive", "genesis_time", Show::show(excl.genesis_time()))); r.reads.push(("exclusive", "genesis_validators_root", Show::show(excl.genesis_validators_root()))); r.reads.push(("exclusive", "slot", Show::show(excl.slot()))); r.reads.push(("exclusive", "fork", Show::show(excl.fork()))); r.reads.push(("exclusive", "latest_block_header", Show::show(excl.latest_block_header()))); r.reads.push(("exclusive", "block_roots", Show::show(excl.block_roots()))); r.reads.push(("exclusive", "state_roots", Show::show(excl.state_roots()))); r.reads.push(("exclusive", "historical_roots", Show::show(excl.historical_roots()))); r.reads.push(("exclusive", "eth1_data", Show::show(excl.eth1_data()))); r.reads.push(("exclusive", "eth1_data_votes", Show::show(excl.eth1_data_votes()))); r.reads.push(("exclusive", "eth1_deposit_index", Show::show(excl.eth1_deposit_index()))); r.reads.push(("exclusive", "validators", Show::show(excl.validators()))); r.reads.push(("exclusive", "balances", Show::show(excl.balances()))); r.reads.push(("exclusive", "randao_mixes", Show::show(excl.randao_mixes()))); r.reads.push(("exclusive", "slashings", Show::show(excl.slashings()))); r.reads.push(("exclusive", "previous_epoch_attestations", Show::show(excl.previous_epoch_attestations()))); r.reads.push(("exclusive", "current_epoch_attestations", Show::show(excl.current_epoch_attestations()))); r.reads.push(("exclusive", "justification_bits", Show::show(excl.justification_bits()))); r.reads.push(("exclusive", "previous_justified_checkpoint", Show::show(excl.previous_justified_checkpoint()))); r.reads.push(("exclusive", "current_justified_checkpoint", Show::show(excl.current_justified_checkpoint()))); r.reads.push(("exclusive", "finalized_checkpoint", Show::show(excl.finalized_checkpoint()))); r.reads.push(("exclusive", "previous_epoch_participation", Show::show(excl.previous_epoch_participation()))); r.reads.push(("exclusive", "current_epoch_participation", Show::show(excl.current_epoch_participation()))); r.reads.push(("exclusive", "inactivity_scores", Show::show(excl.inactivity_scores()))); r.reads.push(("exclusive", "current_sync_committee", Show::show(excl.current_sync_committee()))); r.reads.push(("exclusive", "next_sync_committee", Show::show(excl.next_sync_committee()))); r.reads.push(("exclusive", "latest_execution_payload_header", Show::show(excl.latest_execution_payload_header()))); r.reads.push(("exclusive", "next_withdrawal_index", Show::show(excl.next_withdrawal_index()))); r.reads.push(("exclusive", "next_withdrawal_validator_index", Show::show(excl.next_withdrawal_validator_index()))); r.reads.push(("exclusive", "historical_summaries", Show::show(excl.historical_summaries())));
            if let Some(y) = excl.phase0() { r.conversions.push(("exclusive", "phase0", bytes(y))); } if let Some(y) = excl.altair() { r.conversions.push(("exclusive", "altair", bytes(y))); } if let Some(y) = excl.bellatrix() { r.conversions.push(("exclusive", "bellatrix", bytes(y))); } if let Some(y) = excl.capella() { r.conversions.push(("exclusive", "capella", bytes(y))); } if let Some(y) = excl.deneb() { r.conversions.push(("exclusive", "deneb", bytes(y))); }
            let there = match field { "genesis_time" => Put::put(excl.genesis_time_mut(), new), "genesis_validators_root" => Put::put(excl.genesis_validators_root_mut(), new), "slot" => Put::put(excl.slot_mut(), new), "fork" => Put::put(excl.fork_mut(), new), "latest_block_header" => Put::put(excl.latest_block_header_mut(), new), "block_roots" => Put::put(excl.block_roots_mut(), new), "state_roots" => Put::put(excl.state_roots_mut(), new), "historical_roots" => Put::put(excl.historical_roots_mut(), new), "eth1_data" => Put::put(excl.eth1_data_mut(), new), "eth1_data_votes" => Put::put(excl.eth1_data_votes_mut(), new), "eth1_deposit_index" => Put::put(excl.eth1_deposit_index_mut(), new), "validators" => Put::put(excl.validators_mut(), new), "balances" => Put::put(excl.balances_mut(), new), "randao_mixes" => Put::put(excl.randao_mixes_mut(), new), "slashings" => Put::put(excl.slashings_mut(), new), "previous_epoch_attestations" => Put::put(excl.previous_epoch_attestations_mut(), new), "current_epoch_attestations" => Put::put(excl.current_epoch_attestations_mut(), new), "justification_bits" => Put::put(excl.justification_bits_mut(), new), "previous_justified_checkpoint" => Put::put(excl.previous_justified_checkpoint_mut(), new), "current_justified_checkpoint" => Put::put(excl.current_justified_checkpoint_mut(), new), "finalized_checkpoint" => Put::put(excl.finalized_checkpoint_mut(), new), "previous_epoch_participation" => Put::put(excl.previous_epoch_participation_mut(), new), "current_epoch_participation" => Put::put(excl.current_epoch_participation_mut(), new), "inactivity_scores" => Put::put(excl.inactivity_scores_mut(), new), "current_sync_committee" => Put::put(excl.current_sync_committee_mut(), new), "next_sync_committee" => Put::put(excl.next_sync_committee_mut(), new), "latest_execution_payload_header" => Put::put(excl.latest_execution_payload_header_mut(), new), "next_withdrawal_index" => Put::put(excl.next_withdrawal_index_mut(), new), "next_withdrawal_validator_index" => Put::put(excl.next_withdrawal_validator_index_mut(), new), "historical_summaries" => Put::put(excl.historical_summaries_mut(), new), _ => panic!("{field}") };
            r.writes.push(("exclusive", there, bytes(&y)));
        }
        _ => panic!("no such variant"),
        }
        Ok(r)
    })
}
fn beacon_state_large(f: Fork, b: &[u8]) -> Got<(String, Vec<u8>, H, String, (String, Vec<u8>))> {
    use ssz_rs::Deserialize;
    settle(|| {
        let own = match f {
            Fork::Phase0 => types::mainnet::BeaconState::Phase0(ec::phase0::mainnet::BeaconState::deserialize(b).map_err(|e| format!("{e:?}"))?),
            Fork::Altair => types::mainnet::BeaconState::Altair(ec::altair::mainnet::BeaconState::deserialize(b).map_err(|e| format!("{e:?}"))?),
            Fork::Bellatrix => types::mainnet::BeaconState::Bellatrix(ec::bellatrix::mainnet::BeaconState::deserialize(b).map_err(|e| format!("{e:?}"))?),
            Fork::Capella => types::mainnet::BeaconState::Capella(ec::capella::mainnet::BeaconState::deserialize(b).map_err(|e| format!("{e:?}"))?),
            Fork::Deneb => types::mainnet::BeaconState::Deneb(ec::deneb::mainnet::BeaconState::deserialize(b).map_err(|e| format!("{e:?}"))?),
            _ => panic!("no such variant"),
        };
        let json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
        let back: types::mainnet::BeaconState = serde_json::from_str(&json).map_err(|e| e.to_string())?;
        Ok((format!("{:?}", own.version()), bytes(&own), root(&own), json, (format!("{:?}", back.version()), bytes(&back))))
    })
}
fn beacon_block(f: Fork, b: &[u8], field: &str, new: &[u8]) -> Got<Report> {
    use ssz_rs::Deserialize;
    settle(|| {
        let mut r = Report::default();
        match f {
        Fork::Phase0 => {
            let x = ec::phase0::minimal::BeaconBlock::deserialize(b).map_err(|e| format!("{e:?}"))?;
            let mut own = types::minimal::BeaconBlock::Phase0(x.clone());
            r.version.push(("value", format!("{:?}", own.version())));
            r.root.push(("value", root(&own)));
            r.reads.push(("value", "slot", Show::show(own.slot()))); r.reads.push(("value", "proposer_index", Show::show(own.proposer_index()))); r.reads.push(("value", "parent_root", Show::show(own.parent_root()))); r.reads.push(("value", "state_root", Show::show(own.state_root()))); r.reads.push(("value", "body", Show::show(own.body())));
            if let Some(y) = own.phase0() { r.conversions.push(("value", "phase0", bytes(y))); } if let Some(y) = own.altair() { r.conversions.push(("value", "altair", bytes(y))); } if let Some(y) = own.bellatrix() { r.conversions.push(("value", "bellatrix", bytes(y))); } if let Some(y) = own.capella() { r.conversions.push(("value", "capella", bytes(y))); } if let Some(y) = own.deneb() { r.conversions.push(("value", "deneb", bytes(y))); }
            r.ssz = bytes(&own);
            r.json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
            let tree: serde_json::Value = serde_json::from_str(&r.json).map_err(|e| e.to_string())?;
            for back in [serde_json::from_str::<types::minimal::BeaconBlock>(&r.json), serde_json::from_value(tree)] {
                r.back.push(back.map(|x| (format!("{:?}", x.version()), bytes(&x))).map_err(|e| e.to_string()));
            }
            let there = match field { "slot" => Put::put(own.slot_mut(), new), "proposer_index" => Put::put(own.proposer_index_mut(), new), "parent_root" => Put::put(own.parent_root_mut(), new), "state_root" => Put::put(own.state_root_mut(), new), "body" => Put::put(own.body_mut(), new), _ => panic!("{field}") };
            r.writes.push(("value", there, bytes(&own)));
            let mut own = types::minimal::BeaconBlock::Phase0(x.clone());
            r.conversions.extend(own.phase0_mut().map(|y| ("value to write", "phase0", bytes(y))));
            if own.altair_mut().is_some() { r.conversions.push(("value to write", "altair", vec![])); }
            if own.bellatrix_mut().is_some() { r.conversions.push(("value to write", "bellatrix", vec![])); }
            if own.capella_mut().is_some() { r.conversions.push(("value to write", "capella", vec![])); }
            if own.deneb_mut().is_some() { r.conversions.push(("value to write", "deneb", vec![])); }
            let shared = types::BeaconBlockRef::<{ ec::deneb::minimal::MAX_PROPOSER_SLASHINGS }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::deneb::minimal::MAX_ATTESTER_SLASHINGS }, { ec::deneb::minimal::MAX_ATTESTATIONS }, { ec::deneb::minimal::MAX_DEPOSITS }, { ec::deneb::minimal::MAX_VOLUNTARY_EXITS }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BYTES_PER_TRANSACTION }, { ec::deneb::minimal::MAX_TRANSACTIONS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_WITHDRAWALS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_BLS_TO_EXECUTION_CHANGES }, { ec::deneb::minimal::MAX_BLOB_COMMITMENTS_PER_BLOCK }>::from(&x);
            r.version.push(("shared", format!("{:?}", shared.version())));
            r.root.push(("shared", root(&shared)));
            r.reads.push(("shared", "slot", Show::show(shared.slot()))); r.reads.push(("shared", "proposer_index", Show::show(shared.proposer_index()))); r.reads.push(("shared", "parent_root", Show::show(shared.parent_root()))); r.reads.push(("shared", "state_root", Show::show(shared.state_root()))); r.reads.push(("shared", "body", Show::show(shared.body())));
            if let Some(y) = shared.phase0() { r.conversions.push(("shared", "phase0", bytes(y))); } if let Some(y) = shared.altair() { r.conversions.push(("shared", "altair", bytes(y))); } if let Some(y) = shared.bellatrix() { r.conversions.push(("shared", "bellatrix", bytes(y))); } if let Some(y) = shared.capella() { r.conversions.push(("shared", "capella", bytes(y))); } if let Some(y) = shared.deneb() { r.conversions.push(("shared", "deneb", bytes(y))); }
            let mut y = x.clone();
            let mut excl = types::BeaconBlockRefMut::<{ ec::deneb::minimal::MAX_PROPOSER_SLASHINGS }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::deneb::minimal::MAX_ATTESTER_SLASHINGS }, { ec::deneb::minimal::MAX_ATTESTATIONS }, { ec::deneb::minimal::MAX_DEPOSITS }, { ec::deneb::minimal::MAX_VOLUNTARY_EXITS }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BYTES_PER_TRANSACTION }, { ec::deneb::minimal::MAX_TRANSACTIONS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_WITHDRAWALS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_BLS_TO_EXECUTION_CHANGES }, { ec::deneb::minimal::MAX_BLOB_COMMITMENTS_PER_BLOCK }>::from(&mut y);
            r.version.push(("exclusive", format!("{:?}", excl.version())));
            r.root.push(("exclusive", root(&excl)));
            r.reads.push(("exclusive", "slot", Show::show(excl.slot()))); r.reads.push(("exclusive", "proposer_index", Show::show(excl.proposer_index()))); r.reads.push(("exclusive", "parent_root", Show::show(excl.parent_root()))); r.reads.push(("exclusive", "state_root", Show::show(excl.state_root()))); r.reads.push(("exclusive", "body", Show::show(excl.body())));
            if let Some(y) = excl.phase0() { r.conversions.push(("exclusive", "phase0", bytes(y))); } if let Some(y) = excl.altair() { r.conversions.push(("exclusive", "altair", bytes(y))); } if let Some(y) = excl.bellatrix() { r.conversions.push(("exclusive", "bellatrix", bytes(y))); } if let Some(y) = excl.capella() { r.conversions.push(("exclusive", "capella", bytes(y))); } if let Some(y) = excl.deneb() { r.conversions.push(("exclusive", "deneb", bytes(y))); }
            let there = match field { "slot" => Put::put(excl.slot_mut(), new), "proposer_index" => Put::put(excl.proposer_index_mut(), new), "parent_root" => Put::put(excl.parent_root_mut(), new), "state_root" => Put::put(excl.state_root_mut(), new), "body" => Put::put(excl.body_mut(), new), _ => panic!("{field}") };
            r.writes.push(("exclusive", there, bytes(&y)));
        }
        Fork::Altair => {
            let x = ec::altair::minimal::BeaconBlock::deserialize(b).map_err(|e| format!("{e:?}"))?;
            let mut own = types::minimal::BeaconBlock::Altair(x.clone());
            r.version.push(("value", format!("{:?}", own.version())));
            r.root.push(("value", root(&own)));
            r.reads.push(("value", "slot", Show::show(own.slot()))); r.reads.push(("value", "proposer_index", Show::show(own.proposer_index()))); r.reads.push(("value", "parent_root", Show::show(own.parent_root()))); r.reads.push(("value", "state_root", Show::show(own.state_root()))); r.reads.push(("value", "body", Show::show(own.body())));
            if let Some(y) = own.phase0() { r.conversions.push(("value", "phase0", bytes(y))); } if let Some(y) = own.altair() { r.conversions.push(("value", "altair", bytes(y))); } if let Some(y) = own.bellatrix() { r.conversions.push(("value", "bellatrix", bytes(y))); } if let Some(y) = own.capella() { r.conversions.push(("value", "capella", bytes(y))); } if let Some(y) = own.deneb() { r.conversions.push(("value", "deneb", bytes(y))); }
            r.ssz = bytes(&own);
            r.json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
            let tree: serde_json::Value = serde_json::from_str(&r.json).map_err(|e| e.to_string())?;
            for back in [serde_json::from_str::<types::minimal::BeaconBlock>(&r.json), serde_json::from_value(tree)] {
                r.back.push(back.map(|x| (format!("{:?}", x.version()), bytes(&x))).map_err(|e| e.to_string()));
            }
            let there = match field { "slot" => Put::put(own.slot_mut(), new), "proposer_index" => Put::put(own.proposer_index_mut(), new), "parent_root" => Put::put(own.parent_root_mut(), new), "state_root" => Put::put(own.state_root_mut(), new), "body" => Put::put(own.body_mut(), new), _ => panic!("{field}") };
            r.writes.push(("value", there, bytes(&own)));
            let mut own = types::minimal::BeaconBlock::Altair(x.clone());
            r.conversions.extend(own.altair_mut().map(|y| ("value to write", "altair", bytes(y))));
            if own.phase0_mut().is_some() { r.conversions.push(("value to write", "phase0", vec![])); }
            if own.bellatrix_mut().is_some() { r.conversions.push(("value to write", "bellatrix", vec![])); }
            if own.capella_mut().is_some() { r.conversions.push(("value to write", "capella", vec![])); }
            if own.deneb_mut().is_some() { r.conversions.push(("value to write", "deneb", vec![])); }
            let shared = types::BeaconBlockRef::<{ ec::deneb::minimal::MAX_PROPOSER_SLASHINGS }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::deneb::minimal::MAX_ATTESTER_SLASHINGS }, { ec::deneb::minimal::MAX_ATTESTATIONS }, { ec::deneb::minimal::MAX_DEPOSITS }, { ec::deneb::minimal::MAX_VOLUNTARY_EXITS }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BYTES_PER_TRANSACTION }, { ec::deneb::minimal::MAX_TRANSACTIONS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_WITHDRAWALS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_BLS_TO_EXECUTION_CHANGES }, { ec::deneb::minimal::MAX_BLOB_COMMITMENTS_PER_BLOCK }>::from(&x);
            r.version.push(("shared", format!("{:?}", shared.version())));
            r.root.push(("shared", root(&shared)));
            r.reads.push(("shared", "slot", Show::show(shared.slot()))); r.reads.push(("shared", "proposer_index", Show::show(shared.proposer_index()))); r.reads.push(("shared", "parent_root", Show::show(shared.parent_root()))); r.reads.push(("shared", "state_root", Show::show(shared.state_root()))); r.reads.push(("shared", "body", Show::show(shared.body())));
            if let Some(y) = shared.phase0() { r.conversions.push(("shared", "phase0", bytes(y))); } if let Some(y) = shared.altair() { r.conversions.push(("shared", "altair", bytes(y))); } if let Some(y) = shared.bellatrix() { r.conversions.push(("shared", "bellatrix", bytes(y))); } if let Some(y) = shared.capella() { r.conversions.push(("shared", "capella", bytes(y))); } if let Some(y) = shared.deneb() { r.conversions.push(("shared", "deneb", bytes(y))); }
            let mut y = x.clone();
            let mut excl = types::BeaconBlockRefMut::<{ ec::deneb::minimal::MAX_PROPOSER_SLASHINGS }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::deneb::minimal::MAX_ATTESTER_SLASHINGS }, { ec::deneb::minimal::MAX_ATTESTATIONS }, { ec::deneb::minimal::MAX_DEPOSITS }, { ec::deneb::minimal::MAX_VOLUNTARY_EXITS }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BYTES_PER_TRANSACTION }, { ec::deneb::minimal::MAX_TRANSACTIONS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_WITHDRAWALS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_BLS_TO_EXECUTION_CHANGES }, { ec::deneb::minimal::MAX_BLOB_COMMITMENTS_PER_BLOCK }>::from(&mut y);
            r.version.push(("exclusive", format!("{:?}", excl.version())));
            r.root.push(("exclusive", root(&excl)));
            r.reads.push(("exclusive", "slot", Show::show(excl.slot()))); r.reads.push(("exclusive", "proposer_index", Show::show(excl.proposer_index()))); r.reads.push(("exclusive", "parent_root", Show::show(excl.parent_root()))); r.reads.push(("exclusive", "state_root", Show::show(excl.state_root()))); r.reads.push(("exclusive", "body", Show::show(excl.body())));
            if let Some(y) = excl.phase0() { r.conversions.push(("exclusive", "phase0", bytes(y))); } if let Some(y) = excl.altair() { r.conversions.push(("exclusive", "altair", bytes(y))); } if let Some(y) = excl.bellatrix() { r.conversions.push(("exclusive", "bellatrix", bytes(y))); } if let Some(y) = excl.capella() { r.conversions.push(("exclusive", "capella", bytes(y))); } if let Some(y) = excl.deneb() { r.conversions.push(("exclusive", "deneb", bytes(y))); }
            let there = match field { "slot" => Put::put(excl.slot_mut(), new), "proposer_index" => Put::put(excl.proposer_index_mut(), new), "parent_root" => Put::put(excl.parent_root_mut(), new), "state_root" => Put::put(excl.state_root_mut(), new), "body" => Put::put(excl.body_mut(), new), _ => panic!("{field}") };
            r.writes.push(("exclusive", there, bytes(&y)));
        }
        Fork::Bellatrix => {
            let x = ec::bellatrix::minimal::BeaconBlock::deserialize(b).map_err(|e| format!("{e:?}"))?;
            let mut own = types::minimal::BeaconBlock::Bellatrix(x.clone());
            r.version.push(("value", format!("{:?}", own.version())));
            r.root.push(("value", root(&own)));
            r.reads.push(("value", "slot", Show::show(own.slot()))); r.reads.push(("value", "proposer_index", Show::show(own.proposer_index()))); r.reads.push(("value", "parent_root", Show::show(own.parent_root()))); r.reads.push(("value", "state_root", Show::show(own.state_root()))); r.reads.push(("value", "body", Show::show(own.body())));
            if let Some(y) = own.phase0() { r.conversions.push(("value", "phase0", bytes(y))); } if let Some(y) = own.altair() { r.conversions.push(("value", "altair", bytes(y))); } if let Some(y) = own.bellatrix() { r.conversions.push(("value", "bellatrix", bytes(y))); } if let Some(y) = own.capella() { r.conversions.push(("value", "capella", bytes(y))); } if let Some(y) = own.deneb() { r.conversions.push(("value", "deneb", bytes(y))); }
            r.ssz = bytes(&own);
            r.json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
            let tree: serde_json::Value = serde_json::from_str(&r.json).map_err(|e| e.to_string())?;
            for back in [serde_json::from_str::<types::minimal::BeaconBlock>(&r.json), serde_json::from_value(tree)] {
                r.back.push(back.map(|x| (format!("{:?}", x.version()), bytes(&x))).map_err(|e| e.to_string()));
            }
            let there = match field { "slot" => Put::put(own.slot_mut(), new), "proposer_index" => Put::put(own.proposer_index_mut(), new), "parent_root" => Put::put(own.parent_root_mut(), new), "state_root" => Put::put(own.state_root_mut(), new), "body" => Put::put(own.body_mut(), new), _ => panic!("{field}") };
            r.writes.push(("value", there, bytes(&own)));
            let mut own = types::minimal::BeaconBlock::Bellatrix(x.clone());
            r.conversions.extend(own.bellatrix_mut().map(|y| ("value to write", "bellatrix", bytes(y))));
            if own.phase0_mut().is_some() { r.conversions.push(("value to write", "phase0", vec![])); }
            if own.altair_mut().is_some() { r.conversions.push(("value to write", "altair", vec![])); }
            if own.capella_mut().is_some() { r.conversions.push(("value to write", "capella", vec![])); }
            if own.deneb_mut().is_some() { r.conversions.push(("value to write", "deneb", vec![])); }
            let shared = types::BeaconBlockRef::<{ ec::deneb::minimal::MAX_PROPOSER_SLASHINGS }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::deneb::minimal::MAX_ATTESTER_SLASHINGS }, { ec::deneb::minimal::MAX_ATTESTATIONS }, { ec::deneb::minimal::MAX_DEPOSITS }, { ec::deneb::minimal::MAX_VOLUNTARY_EXITS }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BYTES_PER_TRANSACTION }, { ec::deneb::minimal::MAX_TRANSACTIONS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_WITHDRAWALS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_BLS_TO_EXECUTION_CHANGES }, { ec::deneb::minimal::MAX_BLOB_COMMITMENTS_PER_BLOCK }>::from(&x);
            r.version.push(("shared", format!("{:?}", shared.version())));
            r.root.push(("shared", root(&shared)));
            r.reads.push(("shared", "slot", Show::show(shared.slot()))); r.reads.push(("shared", "proposer_index", Show::show(shared.proposer_index()))); r.reads.push(("shared", "parent_root", Show::show(shared.parent_root()))); r.reads.push(("shared", "state_root", Show::show(shared.state_root()))); r.reads.push(("shared", "body", Show::show(shared.body())));
            if let Some(y) = shared.phase0() { r.conversions.push(("shared", "phase0", bytes(y))); } if let Some(y) = shared.altair() { r.conversions.push(("shared", "altair", bytes(y))); } if let Some(y) = shared.bellatrix() { r.conversions.push(("shared", "bellatrix", bytes(y))); } if let Some(y) = shared.capella() { r.conversions.push(("shared", "capella", bytes(y))); } if let Some(y) = shared.deneb() { r.conversions.push(("shared", "deneb", bytes(y))); }
            let mut y = x.clone();
            let mut excl = types::BeaconBlockRefMut::<{ ec::deneb::minimal::MAX_PROPOSER_SLASHINGS }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::deneb::minimal::MAX_ATTESTER_SLASHINGS }, { ec::deneb::minimal::MAX_ATTESTATIONS }, { ec::deneb::minimal::MAX_DEPOSITS }, { ec::deneb::minimal::MAX_VOLUNTARY_EXITS }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BYTES_PER_TRANSACTION }, { ec::deneb::minimal::MAX_TRANSACTIONS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_WITHDRAWALS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_BLS_TO_EXECUTION_CHANGES }, { ec::deneb::minimal::MAX_BLOB_COMMITMENTS_PER_BLOCK }>::from(&mut y);
            r.version.push(("exclusive", format!("{:?}", excl.version())));
            r.root.push(("exclusive", root(&excl)));
            r.reads.push(("exclusive", "slot", Show::show(excl.slot()))); r.reads.push(("exclusive", "proposer_index", Show::show(excl.proposer_index()))); r.reads.push(("exclusive", "parent_root", Show::show(excl.parent_root()))); r.reads.push(("exclusive", "state_root", Show::show(excl.state_root()))); r.reads.push(("exclusive", "body", Show::show(excl.body())));
            if let Some(y) = excl.phase0() { r.conversions.push(("exclusive", "phase0", bytes(y))); } if let Some(y) = excl.altair() { r.conversions.push(("exclusive", "altair", bytes(y))); } if let Some(y) = excl.bellatrix() { r.conversions.push(("exclusive", "bellatrix", bytes(y))); } if let Some(y) = excl.capella() { r.conversions.push(("exclusive", "capella", bytes(y))); } if let Some(y) = excl.deneb() { r.conversions.push(("exclusive", "deneb", bytes(y))); }
            let there = match field { "slot" => Put::put(excl.slot_mut(), new), "proposer_index" => Put::put(excl.proposer_index_mut(), new), "parent_root" => Put::put(excl.parent_root_mut(), new), "state_root" => Put::put(excl.state_root_mut(), new), "body" => Put::put(excl.body_mut(), new), _ => panic!("{field}") };
            r.writes.push(("exclusive", there, bytes(&y)));
        }
        Fork::Capella => {
            let x = ec::capella::minimal::BeaconBlock::deserialize(b).map_err(|e| format!("{e:?}"))?;
            let mut own = types::minimal::BeaconBlock::Capella(x.clone());
            r.version.push(("value", format!("{:?}", own.version())));
            r.root.push(("value", root(&own)));
            r.reads.push(("value", "slot", Show::show(own.slot()))); r.reads.push(("value", "proposer_index", Show::show(own.proposer_index()))); r.reads.push(("value", "parent_root", Show::show(own.parent_root()))); r.reads.push(("value", "state_root", Show::show(own.state_root()))); r.reads.push(("value", "body", Show::show(own.body())));
            if let Some(y) = own.phase0() { r.conversions.push(("value", "phase0", bytes(y))); } if let Some(y) = own.altair() { r.conversions.push(("value", "altair", bytes(y))); } if let Some(y) = own.bellatrix() { r.conversions.push(("value", "bellatrix", bytes(y))); } if let Some(y) = own.capella() { r.conversions.push(("value", "capella", bytes(y))); } if let Some(y) = own.deneb() { r.conversions.push(("value", "deneb", bytes(y))); }
            r.ssz = bytes(&own);
            r.json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
            let tree: serde_json::Value = serde_json::from_str(&r.json).map_err(|e| e.to_string())?;
            for back in [serde_json::from_str::<types::minimal::BeaconBlock>(&r.json), serde_json::from_value(tree)] {
                r.back.push(back.map(|x| (format!("{:?}", x.version()), bytes(&x))).map_err(|e| e.to_string()));
            }
            let there = match field { "slot" => Put::put(own.slot_mut(), new), "proposer_index" => Put::put(own.proposer_index_mut(), new), "parent_root" => Put::put(own.parent_root_mut(), new), "state_root" => Put::put(own.state_root_mut(), new), "body" => Put::put(own.body_mut(), new), _ => panic!("{field}") };
            r.writes.push(("value", there, bytes(&own)));
            let mut own = types::minimal::BeaconBlock::Capella(x.clone());
            r.conversions.extend(own.capella_mut().map(|y| ("value to write", "capella", bytes(y))));
            if own.phase0_mut().is_some() { r.conversions.push(("value to write", "phase0", vec![])); }
            if own.altair_mut().is_some() { r.conversions.push(("value to write", "altair", vec![])); }
            if own.bellatrix_mut().is_some() { r.conversions.push(("value to write", "bellatrix", vec![])); }
            if own.deneb_mut().is_some() { r.conversions.push(("value to write", "deneb", vec![])); }
            let shared = types::BeaconBlockRef::<{ ec::deneb::minimal::MAX_PROPOSER_SLASHINGS }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::deneb::minimal::MAX_ATTESTER_SLASHINGS }, { ec::deneb::minimal::MAX_ATTESTATIONS }, { ec::deneb::minimal::MAX_DEPOSITS }, { ec::deneb::minimal::MAX_VOLUNTARY_EXITS }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BYTES_PER_TRANSACTION }, { ec::deneb::minimal::MAX_TRANSACTIONS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_WITHDRAWALS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_BLS_TO_EXECUTION_CHANGES }, { ec::deneb::minimal::MAX_BLOB_COMMITMENTS_PER_BLOCK }>::from(&x);
            r.version.push(("shared", format!("{:?}", shared.version())));
            r.root.push(("shared", root(&shared)));
            r.reads.push(("shared", "slot", Show::show(shared.slot()))); r.reads.push(("shared", "proposer_index", Show::show(shared.proposer_index()))); r.reads.push(("shared", "parent_root", Show::show(shared.parent_root()))); r.reads.push(("shared", "state_root", Show::show(shared.state_root()))); r.reads.push(("shared", "body", Show::show(shared.body())));
            if let Some(y) = shared.phase0() { r.conversions.push(("shared", "phase0", bytes(y))); } if let Some(y) = shared.altair() { r.conversions.push(("shared", "altair", bytes(y))); } if let Some(y) = shared.bellatrix() { r.conversions.push(("shared", "bellatrix", bytes(y))); } if let Some(y) = shared.capella() { r.conversions.push(("shared", "capella", bytes(y))); } if let Some(y) = shared.deneb() { r.conversions.push(("shared", "deneb", bytes(y))); }
            let mut y = x.clone();
            let mut excl = types::BeaconBlockRefMut::<{ ec::deneb::minimal::MAX_PROPOSER_SLASHINGS }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::deneb::minimal::MAX_ATTESTER_SLASHINGS }, { ec::deneb::minimal::MAX_ATTESTATIONS }, { ec::deneb::minimal::MAX_DEPOSITS }, { ec::deneb::minimal::MAX_VOLUNTARY_EXITS }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BYTES_PER_TRANSACTION }, { ec::deneb::minimal::MAX_TRANSACTIONS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_WITHDRAWALS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_BLS_TO_EXECUTION_CHANGES }, { ec::deneb::minimal::MAX_BLOB_COMMITMENTS_PER_BLOCK }>::from(&mut y);
            r.version.push(("exclusive", format!("{:?}", excl.version())));
            r.root.push(("exclusive", root(&excl)));
            r.reads.push(("exclusive", "slot", Show::show(excl.slot()))); r.reads.push(("exclusive", "proposer_index", Show::show(excl.proposer_index()))); r.reads.push(("exclusive", "parent_root", Show::show(excl.parent_root()))); r.reads.push(("exclusive", "state_root", Show::show(excl.state_root()))); r.reads.push(("exclusive", "body", Show::show(excl.body())));
            if let Some(y) = excl.phase0() { r.conversions.push(("exclusive", "phase0", bytes(y))); } if let Some(y) = excl.altair() { r.conversions.push(("exclusive", "altair", bytes(y))); } if let Some(y) = excl.bellatrix() { r.conversions.push(("exclusive", "bellatrix", bytes(y))); } if let Some(y) = excl.capella() { r.conversions.push(("exclusive", "capella", bytes(y))); } if let Some(y) = excl.deneb() { r.conversions.push(("exclusive", "deneb", bytes(y))); }
            let there = match field { "slot" => Put::put(excl.slot_mut(), new), "proposer_index" => Put::put(excl.proposer_index_mut(), new), "parent_root" => Put::put(excl.parent_root_mut(), new), "state_root" => Put::put(excl.state_root_mut(), new), "body" => Put::put(excl.body_mut(), new), _ => panic!("{field}") };
            r.writes.push(("exclusive", there, bytes(&y)));
        }
        Fork::Deneb => {
            let x = ec::deneb::minimal::BeaconBlock::deserialize(b).map_err(|e| format!("{e:?}"))?;
            let mut own = types::minimal::BeaconBlock::Deneb(x.clone());
            r.version.push(("value", format!("{:?}", own.version())));
            r.root.push(("value", root(&own)));
            r.reads.push(("value", "slot", Show::show(own.slot()))); r.reads.push(("value", "proposer_index", Show::show(own.proposer_index()))); r.reads.push(("value", "parent_root", Show::show(own.parent_root()))); r.reads.push(("value", "state_root", Show::show(own.state_root()))); r.reads.push(("value", "body", Show::show(own.body())));
            if let Some(y) = own.phase0() { r.conversions.push(("value", "phase0", bytes(y))); } if let Some(y) = own.altair() { r.conversions.push(("value", "altair", bytes(y))); } if let Some(y) = own.bellatrix() { r.conversions.push(("value", "bellatrix", bytes(y))); } if let Some(y) = own.capella() { r.conversions.push(("value", "capella", bytes(y))); } if let Some(y) = own.deneb() { r.conversions.push(("value", "deneb", bytes(y))); }
            r.ssz = bytes(&own);
            r.json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
            let tree: serde_json::Value = serde_json::from_str(&r.json).map_err(|e| e.to_string())?;
            for back in [serde_json::from_str::<types::minimal::BeaconBlock>(&r.json), serde_json::from_value(tree)] {
                r.back.push(back.map(|x| (format!("{:?}", x.version()), bytes(&x))).map_err(|e| e.to_string()));
            }
            let there = match field { "slot" => Put::put(own.slot_mut(), new), "proposer_index" => Put::put(own.proposer_index_mut(), new), "parent_root" => Put::put(own.parent_root_mut(), new), "state_root" => Put::put(own.state_root_mut(), new), "body" => Put::put(own.body_mut(), new), _ => panic!("{field}") };
            r.writes.push(("value", there, bytes(&own)));
            let mut own = types::minimal::BeaconBlock::Deneb(x.clone());
            r.conversions.extend(own.deneb_mut().map(|y| ("value to write", "deneb", bytes(y))));
            if own.phase0_mut().is_some() { r.conversions.push(("value to write", "phase0", vec![])); }
            if own.altair_mut().is_some() { r.conversions.push(("value to write", "altair", vec![])); }
            if own.bellatrix_mut().is_some() { r.conversions.push(("value to write", "bellatrix", vec![])); }
            if own.capella_mut().is_some() { r.conversions.push(("value to write", "capella", vec![])); }
            let shared = types::BeaconBlockRef::<{ ec::deneb::minimal::MAX_PROPOSER_SLASHINGS }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::deneb::minimal::MAX_ATTESTER_SLASHINGS }, { ec::deneb::minimal::MAX_ATTESTATIONS }, { ec::deneb::minimal::MAX_DEPOSITS }, { ec::deneb::minimal::MAX_VOLUNTARY_EXITS }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BYTES_PER_TRANSACTION }, { ec::deneb::minimal::MAX_TRANSACTIONS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_WITHDRAWALS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_BLS_TO_EXECUTION_CHANGES }, { ec::deneb::minimal::MAX_BLOB_COMMITMENTS_PER_BLOCK }>::from(&x);
            r.version.push(("shared", format!("{:?}", shared.version())));
            r.root.push(("shared", root(&shared)));
            r.reads.push(("shared", "slot", Show::show(shared.slot()))); r.reads.push(("shared", "proposer_index", Show::show(shared.proposer_index()))); r.reads.push(("shared", "parent_root", Show::show(shared.parent_root()))); r.reads.push(("shared", "state_root", Show::show(shared.state_root()))); r.reads.push(("shared", "body", Show::show(shared.body())));
            if let Some(y) = shared.phase0() { r.conversions.push(("shared", "phase0", bytes(y))); } if let Some(y) = shared.altair() { r.conversions.push(("shared", "altair", bytes(y))); } if let Some(y) = shared.bellatrix() { r.conversions.push(("shared", "bellatrix", bytes(y))); } if let Some(y) = shared.capella() { r.conversions.push(("shared", "capella", bytes(y))); } if let Some(y) = shared.deneb() { r.conversions.push(("shared", "deneb", bytes(y))); }
            let mut y = x.clone();
            let mut excl = types::BeaconBlockRefMut::<{ ec::deneb::minimal::MAX_PROPOSER_SLASHINGS }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::deneb::minimal::MAX_ATTESTER_SLASHINGS }, { ec::deneb::minimal::MAX_ATTESTATIONS }, { ec::deneb::minimal::MAX_DEPOSITS }, { ec::deneb::minimal::MAX_VOLUNTARY_EXITS }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BYTES_PER_TRANSACTION }, { ec::deneb::minimal::MAX_TRANSACTIONS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_WITHDRAWALS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_BLS_TO_EXECUTION_CHANGES }, { ec::deneb::minimal::MAX_BLOB_COMMITMENTS_PER_BLOCK }>::from(&mut y);
            r.version.push(("exclusive", format!("{:?}", excl.version())));
            r.root.push(("exclusive", root(&excl)));
            r.reads.push(("exclusive", "slot", Show::show(excl.slot()))); r.reads.push(("exclusive", "proposer_index", Show::show(excl.proposer_index()))); r.reads.push(("exclusive", "parent_root", Show::show(excl.parent_root()))); r.reads.push(("exclusive", "state_root", Show::show(excl.state_root()))); r.reads.push(("exclusive", "body", Show::show(excl.body())));
            if let Some(y) = excl.phase0() { r.conversions.push(("exclusive", "phase0", bytes(y))); } if let Some(y) = excl.altair() { r.conversions.push(("exclusive", "altair", bytes(y))); } if let Some(y) = excl.bellatrix() { r.conversions.push(("exclusive", "bellatrix", bytes(y))); } if let Some(y) = excl.capella() { r.conversions.push(("exclusive", "capella", bytes(y))); } if let Some(y) = excl.deneb() { r.conversions.push(("exclusive", "deneb", bytes(y))); }
            let there = match field { "slot" => Put::put(excl.slot_mut(), new), "proposer_index" => Put::put(excl.proposer_index_mut(), new), "parent_root" => Put::put(excl.parent_root_mut(), new), "state_root" => Put::put(excl.state_root_mut(), new), "body" => Put::put(excl.body_mut(), new), _ => panic!("{field}") };
            r.writes.push(("exclusive", there, bytes(&y)));
        }
        _ => panic!("no such variant"),
        }
        Ok(r)
    })
}
fn beacon_block_large(f: Fork, b: &[u8]) -> Got<(String, Vec<u8>, H, String, (String, Vec<u8>))> {
    use ssz_rs::Deserialize;
    settle(|| {
        let own = match f {
            Fork::Phase0 => types::mainnet::BeaconBlock::Phase0(ec::phase0::mainnet::BeaconBlock::deserialize(b).map_err(|e| format!("{e:?}"))?),
            Fork::Altair => types::mainnet::BeaconBlock::Altair(ec::altair::mainnet::BeaconBlock::deserialize(b).map_err(|e| format!("{e:?}"))?),
            Fork::Bellatrix => types::mainnet::BeaconBlock::Bellatrix(ec::bellatrix::mainnet::BeaconBlock::deserialize(b).map_err(|e| format!("{e:?}"))?),
            Fork::Capella => types::mainnet::BeaconBlock::Capella(ec::capella::mainnet::BeaconBlock::deserialize(b).map_err(|e| format!("{e:?}"))?),
            Fork::Deneb => types::mainnet::BeaconBlock::Deneb(ec::deneb::mainnet::BeaconBlock::deserialize(b).map_err(|e| format!("{e:?}"))?),
            _ => panic!("no such variant"),
        };
        let json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
        let back: types::mainnet::BeaconBlock = serde_json::from_str(&json).map_err(|e| e.to_string())?;
        Ok((format!("{:?}", own.version()), bytes(&own), root(&own), json, (format!("{:?}", back.version()), bytes(&back))))
    })
}
fn beacon_block_body(f: Fork, b: &[u8], field: &str, new: &[u8]) -> Got<Report> {
    use ssz_rs::Deserialize;
    settle(|| {
        let mut r = Report::default();
        match f {
        Fork::Phase0 => {
            let x = ec::phase0::minimal::BeaconBlockBody::deserialize(b).map_err(|e| format!("{e:?}"))?;
            let mut own = types::minimal::BeaconBlockBody::Phase0(x.clone());
            r.version.push(("value", format!("{:?}", own.version())));
            r.root.push(("value", root(&own)));
            r.reads.push(("value", "randao_reveal", Show::show(own.randao_reveal()))); r.reads.push(("value", "eth1_data", Show::show(own.eth1_data()))); r.reads.push(("value", "graffiti", Show::show(own.graffiti()))); r.reads.push(("value", "proposer_slashings", Show::show(own.proposer_slashings()))); r.reads.push(("value", "attester_slashings", Show::show(own.attester_slashings()))); r.reads.push(("value", "attestations", Show::show(own.attestations()))); r.reads.push(("value", "deposits", Show::show(own.deposits()))); r.reads.push(("value", "voluntary_exits", Show::show(own.voluntary_exits()))); r.reads.push(("value", "sync_aggregate", Show::show(own.sync_aggregate()))); r.reads.push(("value", "execution_payload", Show::show(own.execution_payload()))); r.reads.push(("value", "bls_to_execution_changes", Show::show(own.bls_to_execution_changes()))); r.reads.push(("value", "blob_kzg_commitments", Show::show(own.blob_kzg_commitments())));
            if let Some(y) = own.phase0() { r.conversions.push(("value", "phase0", bytes(y))); } if let Some(y) = own.altair() { r.conversions.push(("value", "altair", bytes(y))); } if let Some(y) = own.bellatrix() { r.conversions.push(("value", "bellatrix", bytes(y))); } if let Some(y) = own.capella() { r.conversions.push(("value", "capella", bytes(y))); } if let Some(y) = own.deneb() { r.conversions.push(("value", "deneb", bytes(y))); }
            r.ssz = bytes(&own);
            r.json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
            let tree: serde_json::Value = serde_json::from_str(&r.json).map_err(|e| e.to_string())?;
            for back in [serde_json::from_str::<types::minimal::BeaconBlockBody>(&r.json), serde_json::from_value(tree)] {
                r.back.push(back.map(|x| (format!("{:?}", x.version()), bytes(&x))).map_err(|e| e.to_string()));
            }
            let there = match field { "randao_reveal" => Put::put(own.randao_reveal_mut(), new), "eth1_data" => Put::put(own.eth1_data_mut(), new), "graffiti" => Put::put(own.graffiti_mut(), new), "proposer_slashings" => Put::put(own.proposer_slashings_mut(), new), "attester_slashings" => Put::put(own.attester_slashings_mut(), new), "attestations" => Put::put(own.attestations_mut(), new), "deposits" => Put::put(own.deposits_mut(), new), "voluntary_exits" => Put::put(own.voluntary_exits_mut(), new), "sync_aggregate" => Put::put(own.sync_aggregate_mut(), new), "execution_payload" => Put::put(own.execution_payload_mut(), new), "bls_to_execution_changes" => Put::put(own.bls_to_execution_changes_mut(), new), "blob_kzg_commitments" => Put::put(own.blob_kzg_commitments_mut(), new), _ => panic!("{field}") };
            r.writes.push(("value", there, bytes(&own)));
            let mut own = types::minimal::BeaconBlockBody::Phase0(x.clone());
            r.conversions.extend(own.phase0_mut().map(|y| ("value to write", "phase0", bytes(y))));
            if own.altair_mut().is_some() { r.conversions.push(("value to write", "altair", vec![])); }
            if own.bellatrix_mut().is_some() { r.conversions.push(("value to write", "bellatrix", vec![])); }
            if own.capella_mut().is_some() { r.conversions.push(("value to write", "capella", vec![])); }
            if own.deneb_mut().is_some() { r.conversions.push(("value to write", "deneb", vec![])); }
            let shared = types::BeaconBlockBodyRef::<{ ec::deneb::minimal::MAX_PROPOSER_SLASHINGS }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::deneb::minimal::MAX_ATTESTER_SLASHINGS }, { ec::deneb::minimal::MAX_ATTESTATIONS }, { ec::deneb::minimal::MAX_DEPOSITS }, { ec::deneb::minimal::MAX_VOLUNTARY_EXITS }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BYTES_PER_TRANSACTION }, { ec::deneb::minimal::MAX_TRANSACTIONS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_WITHDRAWALS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_BLS_TO_EXECUTION_CHANGES }, { ec::deneb::minimal::MAX_BLOB_COMMITMENTS_PER_BLOCK }>::from(&x);
            r.version.push(("shared", format!("{:?}", shared.version())));
            r.root.push(("shared", root(&shared)));
            r.reads.push(("shared", "randao_reveal", Show::show(shared.randao_reveal()))); r.reads.push(("shared", "eth1_data", Show::show(shared.eth1_data()))); r.reads.push(("shared", "graffiti", Show::show(shared.graffiti()))); r.reads.push(("shared", "proposer_slashings", Show::show(shared.proposer_slashings()))); r.reads.push(("shared", "attester_slashings", Show::show(shared.attester_slashings()))); r.reads.push(("shared", "attestations", Show::show(shared.attestations()))); r.reads.push(("shared", "deposits", Show::show(shared.deposits()))); r.reads.push(("shared", "voluntary_exits", Show::show(shared.voluntary_exits()))); r.reads.push(("shared", "sync_aggregate", Show::show(shared.sync_aggregate()))); r.reads.push(("shared", "execution_payload", Show::show(shared.execution_payload()))); r.reads.push(("shared", "bls_to_execution_changes", Show::show(shared.bls_to_execution_changes()))); r.reads.push(("shared", "blob_kzg_commitments", Show::show(shared.blob_kzg_commitments())));
            if let Some(y) = shared.phase0() { r.conversions.push(("shared", "phase0", bytes(y))); } if let Some(y) = shared.altair() { r.conversions.push(("shared", "altair", bytes(y))); } if let Some(y) = shared.bellatrix() { r.conversions.push(("shared", "bellatrix", bytes(y))); } if let Some(y) = shared.capella() { r.conversions.push(("shared", "capella", bytes(y))); } if let Some(y) = shared.deneb() { r.conversions.push(("shared", "deneb", bytes(y))); }
            let mut y = x.clone();
            let mut excl = types::BeaconBlockBodyRefMut::<{ ec::deneb::minimal::MAX_PROPOSER_SLASHINGS }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::deneb::minimal::MAX_ATTESTER_SLASHINGS }, { ec::deneb::minimal::MAX_ATTESTATIONS }, { ec::deneb::minimal::MAX_DEPOSITS }, { ec::deneb::minimal::MAX_VOLUNTARY_EXITS }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BYTES_PER_TRANSACTION }, { ec::deneb::minimal::MAX_TRANSACTIONS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_WITHDRAWALS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_BLS_TO_EXECUTION_CHANGES }, { ec::deneb::minimal::MAX_BLOB_COMMITMENTS_PER_BLOCK }>::from(&mut y);
            r.version.push(("exclusive", format!("{:?}", excl.version())));
            r.root.push(("exclusive", root(&excl)));
            r.reads.push(("exclusive", "randao_reveal", Show::show(excl.randao_reveal()))); r.reads.push(("exclusive", "eth1_data", Show::show(excl.eth1_data()))); r.reads.push(("exclusive", "graffiti", Show::show(excl.graffiti()))); r.reads.push(("exclusive", "proposer_slashings", Show::show(excl.proposer_slashings()))); r.reads.push(("exclusive", "attester_slashings", Show::show(excl.attester_slashings()))); r.reads.push(("exclusive", "attestations", Show::show(excl.attestations()))); r.reads.push(("exclusive", "deposits", Show::show(excl.deposits()))); r.reads.push(("exclusive", "voluntary_exits", Show::show(excl.voluntary_exits()))); r.reads.push(("exclusive", "sync_aggregate", Show::show(excl.sync_aggregate()))); r.reads.push(("exclusive", "execution_payload", Show::show(excl.execution_payload()))); r.reads.push(("exclusive", "bls_to_execution_changes", Show::show(excl.bls_to_execution_changes()))); r.reads.push(("exclusive", "blob_kzg_commitments", Show::show(excl.blob_kzg_commitments())));
            if let Some(y) = excl.phase0() { r.conversions.push(("exclusive", "phase0", bytes(y))); } if let Some(y) = excl.altair() { r.conversions.push(("exclusive", "altair", bytes(y))); } if let Some(y) = excl.bellatrix() { r.conversions.push(("exclusive", "bellatrix", bytes(y))); } if let Some(y) = excl.capella() { r.conversions.push(("exclusive", "capella", bytes(y))); } if let Some(y) = excl.deneb() { r.conversions.push(("exclusive", "deneb", bytes(y))); }
            let there = match field { "randao_reveal" => Put::put(excl.randao_reveal_mut(), new), "eth1_data" => Put::put(excl.eth1_data_mut(), new), "graffiti" => Put::put(excl.graffiti_mut(), new), "proposer_slashings" => Put::put(excl.proposer_slashings_mut(), new), "attester_slashings" => Put::put(excl.attester_slashings_mut(), new), "attestations" => Put::put(excl.attestations_mut(), new), "deposits" => Put::put(excl.deposits_mut(), new), "voluntary_exits" => Put::put(excl.voluntary_exits_mut(), new), "sync_aggregate" => Put::put(excl.sync_aggregate_mut(), new), "execution_payload" => Put::put(excl.execution_payload_mut(), new), "bls_to_execution_changes" => Put::put(excl.bls_to_execution_changes_mut(), new), "blob_kzg_commitments" => Put::put(excl.blob_kzg_commitments_mut(), new), _ => panic!("{field}") };
            r.writes.push(("exclusive", there, bytes(&y)));
        }
        Fork::Altair => {
            let x = ec::altair::minimal::BeaconBlockBody::deserialize(b).map_err(|e| format!("{e:?}"))?;
            let mut own = types::minimal::BeaconBlockBody::Altair(x.clone());
            r.version.push(("value", format!("{:?}", own.version())));
            r.root.push(("value", root(&own)));
            r.reads.push(("value", "randao_reveal", Show::show(own.randao_reveal()))); r.reads.push(("value", "eth1_data", Show::show(own.eth1_data()))); r.reads.push(("value", "graffiti", Show::show(own.graffiti()))); r.reads.push(("value", "proposer_slashings", Show::show(own.proposer_slashings()))); r.reads.push(("value", "attester_slashings", Show::show(own.attester_slashings()))); r.reads.push(("value", "attestations", Show::show(own.attestations()))); r.reads.push(("value", "deposits", Show::show(own.deposits()))); r.reads.push(("value", "voluntary_exits", Show::show(own.voluntary_exits()))); r.reads.push(("value", "sync_aggregate", Show::show(own.sync_aggregate()))); r.reads.push(("value", "execution_payload", Show::show(own.execution_payload()))); r.reads.push(("value", "bls_to_execution_changes", Show::show(own.bls_to_execution_changes()))); r.reads.push(("value", "blob_kzg_commitments", Show::show(own.blob_kzg_commitments())));
            if let Some(y) = own.phase0() { r.conversions.push(("value", "phase0", bytes(y))); } if let Some(y) = own.altair() { r.conversions.push(("value", "altair", bytes(y))); } if let Some(y) = own.bellatrix() { r.conversions.push(("value", "bellatrix", bytes(y))); } if let Some(y) = own.capella() { r.conversions.push(("value", "capella", bytes(y))); } if let Some(y) = own.deneb() { r.conversions.push(("value", "deneb", bytes(y))); }
            r.ssz = bytes(&own);
            r.json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
            let tree: serde_json::Value = serde_json::from_str(&r.json).map_err(|e| e.to_string())?;
            for back in [serde_json::from_str::<types::minimal::BeaconBlockBody>(&r.json), serde_json::from_value(tree)] {
                r.back.push(back.map(|x| (format!("{:?}", x.version()), bytes(&x))).map_err(|e| e.to_string()));
            }
            let there = match field { "randao_reveal" => Put::put(own.randao_reveal_mut(), new), "eth1_data" => Put::put(own.eth1_data_mut(), new), "graffiti" => Put::put(own.graffiti_mut(), new), "proposer_slashings" => Put::put(own.proposer_slashings_mut(), new), "attester_slashings" => Put::put(own.attester_slashings_mut(), new), "attestations" => Put::put(own.attestations_mut(), new), "deposits" => Put::put(own.deposits_mut(), new), "voluntary_exits" => Put::put(own.voluntary_exits_mut(), new), "sync_aggregate" => Put::put(own.sync_aggregate_mut(), new), "execution_payload" => Put::put(own.execution_payload_mut(), new), "bls_to_execution_changes" => Put::put(own.bls_to_execution_changes_mut(), new), "blob_kzg_commitments" => Put::put(own.blob_kzg_commitments_mut(), new), _ => panic!("{field}") };
            r.writes.push(("value", there, bytes(&own)));
            let mut own = types::minimal::BeaconBlockBody::Altair(x.clone());
            r.conversions.extend(own.altair_mut().map(|y| ("value to write", "altair", bytes(y))));
            if own.phase0_mut().is_some() { r.conversions.push(("value to write", "phase0", vec![])); }
            if own.bellatrix_mut().is_some() { r.conversions.push(("value to write", "bellatrix", vec![])); }
            if own.capella_mut().is_some() { r.conversions.push(("value to write", "capella", vec![])); }
            if own.deneb_mut().is_some() { r.conversions.push(("value to write", "deneb", vec![])); }
            let shared = types::BeaconBlockBodyRef::<{ ec::deneb::minimal::MAX_PROPOSER_SLASHINGS }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::deneb::minimal::MAX_ATTESTER_SLASHINGS }, { ec::deneb::minimal::MAX_ATTESTATIONS }, { ec::deneb::minimal::MAX_DEPOSITS }, { ec::deneb::minimal::MAX_VOLUNTARY_EXITS }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BYTES_PER_TRANSACTION }, { ec::deneb::minimal::MAX_TRANSACTIONS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_WITHDRAWALS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_BLS_TO_EXECUTION_CHANGES }, { ec::deneb::minimal::MAX_BLOB_COMMITMENTS_PER_BLOCK }>::from(&x);
            r.version.push(("shared", format!("{:?}", shared.version())));
            r.root.push(("shared", root(&shared)));
            r.reads.push(("shared", "randao_reveal", Show::show(shared.randao_reveal()))); r.reads.push(("shared", "eth1_data", Show::show(shared.eth1_data()))); r.reads.push(("shared", "graffiti", Show::show(shared.graffiti()))); r.reads.push(("shared", "proposer_slashings", Show::show(shared.proposer_slashings()))); r.reads.push(("shared", "attester_slashings", Show::show(shared.attester_slashings()))); r.reads.push(("shared", "attestations", Show::show(shared.attestations()))); r.reads.push(("shared", "deposits", Show::show(shared.deposits()))); r.reads.push(("shared", "voluntary_exits", Show::show(shared.voluntary_exits()))); r.reads.push(("shared", "sync_aggregate", Show::show(shared.sync_aggregate()))); r.reads.push(("shared", "execution_payload", Show::show(shared.execution_payload()))); r.reads.push(("shared", "bls_to_execution_changes", Show::show(shared.bls_to_execution_changes()))); r.reads.push(("shared", "blob_kzg_commitments", Show::show(shared.blob_kzg_commitments())));
            if let Some(y) = shared.phase0() { r.conversions.push(("shared", "phase0", bytes(y))); } if let Some(y) = shared.altair() { r.conversions.push(("shared", "altair", bytes(y))); } if let Some(y) = shared.bellatrix() { r.conversions.push(("shared", "bellatrix", bytes(y))); } if let Some(y) = shared.capella() { r.conversions.push(("shared", "capella", bytes(y))); } if let Some(y) = shared.deneb() { r.conversions.push(("shared", "deneb", bytes(y))); }
            let mut y = x.clone();
            let mut excl = types::BeaconBlockBodyRefMut::<{ ec::deneb::minimal::MAX_PROPOSER_SLASHINGS }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::deneb::minimal::MAX_ATTESTER_SLASHINGS }, { ec::deneb::minimal::MAX_ATTESTATIONS }, { ec::deneb::minimal::MAX_DEPOSITS }, { ec::deneb::minimal::MAX_VOLUNTARY_EXITS }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BYTES_PER_TRANSACTION }, { ec::deneb::minimal::MAX_TRANSACTIONS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_WITHDRAWALS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_BLS_TO_EXECUTION_CHANGES }, { ec::deneb::minimal::MAX_BLOB_COMMITMENTS_PER_BLOCK }>::from(&mut y);
            r.version.push(("exclusive", format!("{:?}", excl.version())));
            r.root.push(("exclusive", root(&excl)));
            r.reads.push(("exclusive", "randao_reveal", Show::show(excl.randao_reveal()))); r.reads.push(("exclusive", "eth1_data", Show::show(excl.eth1_data()))); r.reads.push(("exclusive", "graffiti", Show::show(excl.graffiti()))); r.reads.push(("exclusive", "proposer_slashings", Show::show(excl.proposer_slashings()))); r.reads.push(("exclusive", "attester_slashings", Show::show(excl.attester_slashings()))); r.reads.push(("exclusive", "attestations", Show::show(excl.attestations()))); r.reads.push(("exclusive", "deposits", Show::show(excl.deposits()))); r.reads.push(("exclusive", "voluntary_exits", Show::show(excl.voluntary_exits()))); r.reads.push(("exclusive", "sync_aggregate", Show::show(excl.sync_aggregate()))); r.reads.push(("exclusive", "execution_payload", Show::show(excl.execution_payload()))); r.reads.push(("exclusive", "bls_to_execution_changes", Show::show(excl.bls_to_execution_changes()))); r.reads.push(("exclusive", "blob_kzg_commitments", Show::show(excl.blob_kzg_commitments())));
            if let Some(y) = excl.phase0() { r.conversions.push(("exclusive", "phase0", bytes(y))); } if let Some(y) = excl.altair() { r.conversions.push(("exclusive", "altair", bytes(y))); } if let Some(y) = excl.bellatrix() { r.conversions.push(("exclusive", "bellatrix", bytes(y))); } if let Some(y) = excl.capella() { r.conversions.push(("exclusive", "capella", bytes(y))); } if let Some(y) = excl.deneb() { r.conversions.push(("exclusive", "deneb", bytes(y))); }
            let there = match field { "randao_reveal" => Put::put(excl.randao_reveal_mut(), new), "eth1_data" => Put::put(excl.eth1_data_mut(), new), "graffiti" => Put::put(excl.graffiti_mut(), new), "proposer_slashings" => Put::put(excl.proposer_slashings_mut(), new), "attester_slashings" => Put::put(excl.attester_slashings_mut(), new), "attestations" => Put::put(excl.attestations_mut(), new), "deposits" => Put::put(excl.deposits_mut(), new), "voluntary_exits" => Put::put(excl.voluntary_exits_mut(), new), "sync_aggregate" => Put::put(excl.sync_aggregate_mut(), new), "execution_payload" => Put::put(excl.execution_payload_mut(), new), "bls_to_execution_changes" => Put::put(excl.bls_to_execution_changes_mut(), new), "blob_kzg_commitments" => Put::put(excl.blob_kzg_commitments_mut(), new), _ => panic!("{field}") };
            r.writes.push(("exclusive", there, bytes(&y)));
        }
        Fork::Bellatrix => {
            let x = ec::bellatrix::minimal::BeaconBlockBody::deserialize(b).map_err(|e| format!("{e:?}"))?;
            let mut own = types::minimal::BeaconBlockBody::Bellatrix(x.clone());
            r.version.push(("value", format!("{:?}", own.version())));
            r.root.push(("value", root(&own)));
            r.reads.push(("value", "randao_reveal", Show::show(own.randao_reveal()))); r.reads.push(("value", "eth1_data", Show::show(own.eth1_data()))); r.reads.push(("value", "graffiti", Show::show(own.graffiti()))); r.reads.push(("value", "proposer_slashings", Show::show(own.proposer_slashings()))); r.reads.push(("value", "attester_slashings", Show::show(own.attester_slashings()))); r.reads.push(("value", "attestations", Show::show(own.attestations()))); r.reads.push(("value", "deposits", Show::show(own.deposits()))); r.reads.push(("value", "voluntary_exits", Show::show(own.voluntary_exits()))); r.reads.push(("value", "sync_aggregate", Show::show(own.sync_aggregate()))); r.reads.push(("value", "execution_payload", Show::show(own.execution_payload()))); r.reads.push(("value", "bls_to_execution_changes", Show::show(own.bls_to_execution_changes()))); r.reads.push(("value", "blob_kzg_commitments", Show::show(own.blob_kzg_commitments())));
            if let Some(y) = own.phase0() { r.conversions.push(("value", "phase0", bytes(y))); } if let Some(y) = own.altair() { r.conversions.push(("value", "altair", bytes(y))); } if let Some(y) = own.bellatrix() { r.conversions.push(("value", "bellatrix", bytes(y))); } if let Some(y) = own.capella() { r.conversions.push(("value", "capella", bytes(y))); } if let Some(y) = own.deneb() { r.conversions.push(("value", "deneb", bytes(y))); }
            r.ssz = bytes(&own);
            r.json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
            let tree: serde_json::Value = serde_json::from_str(&r.json).map_err(|e| e.to_string())?;
            for back in [serde_json::from_str::<types::minimal::BeaconBlockBody>(&r.json), serde_json::from_value(tree)] {
                r.back.push(back.map(|x| (format!("{:?}", x.version()), bytes(&x))).map_err(|e| e.to_string()));
            }
            let there = match field { "randao_reveal" => Put::put(own.randao_reveal_mut(), new), "eth1_data" => Put::put(own.eth1_data_mut(), new), "graffiti" => Put::put(own.graffiti_mut(), new), "proposer_slashings" => Put::put(own.proposer_slashings_mut(), new), "attester_slashings" => Put::put(own.attester_slashings_mut(), new), "attestations" => Put::put(own.attestations_mut(), new), "deposits" => Put::put(own.deposits_mut(), new), "voluntary_exits" => Put::put(own.voluntary_exits_mut(), new), "sync_aggregate" => Put::put(own.sync_aggregate_mut(), new), "execution_payload" => Put::put(own.execution_payload_mut(), new), "bls_to_execution_changes" => Put::put(own.bls_to_execution_changes_mut(), new), "blob_kzg_commitments" => Put::put(own.blob_kzg_commitments_mut(), new), _ => panic!("{field}") };
            r.writes.push(("value", there, bytes(&own)));
            let mut own = types::minimal::BeaconBlockBody::Bellatrix(x.clone());
            r.conversions.extend(own.bellatrix_mut().map(|y| ("value to write", "bellatrix", bytes(y))));
            if own.phase0_mut().is_some() { r.conversions.push(("value to write", "phase0", vec![])); }
            if own.altair_mut().is_some() { r.conversions.push(("value to write", "altair", vec![])); }
            if own.capella_mut().is_some() { r.conversions.push(("value to write", "capella", vec![])); }
            if own.deneb_mut().is_some() { r.conversions.push(("value to write", "deneb", vec![])); }
            let shared = types::BeaconBlockBodyRef::<{ ec::deneb::minimal::MAX_PROPOSER_SLASHINGS }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::deneb::minimal::MAX_ATTESTER_SLASHINGS }, { ec::deneb::minimal::MAX_ATTESTATIONS }, { ec::deneb::minimal::MAX_DEPOSITS }, { ec::deneb::minimal::MAX_VOLUNTARY_EXITS }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BYTES_PER_TRANSACTION }, { ec::deneb::minimal::MAX_TRANSACTIONS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_WITHDRAWALS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_BLS_TO_EXECUTION_CHANGES }, { ec::deneb::minimal::MAX_BLOB_COMMITMENTS_PER_BLOCK }>::from(&x);
            r.version.push(("shared", format!("{:?}", shared.version())));
            r.root.push(("shared", root(&shared)));
            r.reads.push(("shared", "randao_reveal", Show::show(shared.randao_reveal()))); r.reads.push(("shared", "eth1_data", Show::show(shared.eth1_data()))); r.reads.push(("shared", "graffiti", Show::show(shared.graffiti()))); r.reads.push(("shared", "proposer_slashings", Show::show(shared.proposer_slashings()))); r.reads.push(("shared", "attester_slashings", Show::show(shared.attester_slashings()))); r.reads.push(("shared", "attestations", Show::show(shared.attestations()))); r.reads.push(("shared", "deposits", Show::show(shared.deposits()))); r.reads.push(("shared", "voluntary_exits", Show::show(shared.voluntary_exits()))); r.reads.push(("shared", "sync_aggregate", Show::show(shared.sync_aggregate()))); r.reads.push(("shared", "execution_payload", Show::show(shared.execution_payload()))); r.reads.push(("shared", "bls_to_execution_changes", Show::show(shared.bls_to_execution_changes()))); r.reads.push(("shared", "blob_kzg_commitments", Show::show(shared.blob_kzg_commitments())));
            if let Some(y) = shared.phase0() { r.conversions.push(("shared", "phase0", bytes(y))); } if let Some(y) = shared.altair() { r.conversions.push(("shared", "altair", bytes(y))); } if let Some(y) = shared.bellatrix() { r.conversions.push(("shared", "bellatrix", bytes(y))); } if let Some(y) = shared.capella() { r.conversions.push(("shared", "capella", bytes(y))); } if let Some(y) = shared.deneb() { r.conversions.push(("shared", "deneb", bytes(y))); }
            let mut y = x.clone();
            let mut excl = types::BeaconBlockBodyRefMut::<{ ec::deneb::minimal::MAX_PROPOSER_SLASHINGS }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::deneb::minimal::MAX_ATTESTER_SLASHINGS }, { ec::deneb::minimal::MAX_ATTESTATIONS }, { ec::deneb::minimal::MAX_DEPOSITS }, { ec::deneb::minimal::MAX_VOLUNTARY_EXITS }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BYTES_PER_TRANSACTION }, { ec::deneb::minimal::MAX_TRANSACTIONS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_WITHDRAWALS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_BLS_TO_EXECUTION_CHANGES }, { ec::deneb::minimal::MAX_BLOB_COMMITMENTS_PER_BLOCK }>::from(&mut y);
            r.version.push(("exclusive", format!("{:?}", excl.version())));
            r.root.push(("exclusive", root(&excl)));
            r.reads.push(("exclusive", "randao_reveal", Show::show(excl.randao_reveal()))); r.reads.push(("exclusive", "eth1_data", Show::show(excl.eth1_data()))); r.reads.push(("exclusive", "graffiti", Show::show(excl.graffiti()))); r.reads.push(("exclusive", "proposer_slashings", Show::show(excl.proposer_slashings()))); r.reads.push(("exclusive", "attester_slashings", Show::show(excl.attester_slashings()))); r.reads.push(("exclusive", "attestations", Show::show(excl.attestations()))); r.reads.push(("exclusive", "deposits", Show::show(excl.deposits()))); r.reads.push(("exclusive", "voluntary_exits", Show::show(excl.voluntary_exits()))); r.reads.push(("exclusive", "sync_aggregate", Show::show(excl.sync_aggregate()))); r.reads.push(("exclusive", "execution_payload", Show::show(excl.execution_payload()))); r.reads.push(("exclusive", "bls_to_execution_changes", Show::show(excl.bls_to_execution_changes()))); r.reads.push(("exclusive", "blob_kzg_commitments", Show::show(excl.blob_kzg_commitments())));
            if let Some(y) = excl.phase0() { r.conversions.push(("exclusive", "phase0", bytes(y))); } if let Some(y) = excl.altair() { r.conversions.push(("exclusive", "altair", bytes(y))); } if let Some(y) = excl.bellatrix() { r.conversions.push(("exclusive", "bellatrix", bytes(y))); } if let Some(y) = excl.capella() { r.conversions.push(("exclusive", "capella", bytes(y))); } if let Some(y) = excl.deneb() { r.conversions.push(("exclusive", "deneb", bytes(y))); }
            let there = match field { "randao_reveal" => Put::put(excl.randao_reveal_mut(), new), "eth1_data" => Put::put(excl.eth1_data_mut(), new), "graffiti" => Put::put(excl.graffiti_mut(), new), "proposer_slashings" => Put::put(excl.proposer_slashings_mut(), new), "attester_slashings" => Put::put(excl.attester_slashings_mut(), new), "attestations" => Put::put(excl.attestations_mut(), new), "deposits" => Put::put(excl.deposits_mut(), new), "voluntary_exits" => Put::put(excl.voluntary_exits_mut(), new), "sync_aggregate" => Put::put(excl.sync_aggregate_mut(), new), "execution_payload" => Put::put(excl.execution_payload_mut(), new), "bls_to_execution_changes" => Put::put(excl.bls_to_execution_changes_mut(), new), "blob_kzg_commitments" => Put::put(excl.blob_kzg_commitments_mut(), new), _ => panic!("{field}") };
            r.writes.push(("exclusive", there, bytes(&y)));
        }
        Fork::Capella => {
            let x = ec::capella::minimal::BeaconBlockBody::deserialize(b).map_err(|e| format!("{e:?}"))?;
            let mut own = types::minimal::BeaconBlockBody::Capella(x.clone());
            r.version.push(("value", format!("{:?}", own.version())));
            r.root.push(("value", root(&own)));
            r.reads.push(("value", "randao_reveal", Show::show(own.randao_reveal()))); r.reads.push(("value", "eth1_data", Show::show(own.eth1_data()))); r.reads.push(("value", "graffiti", Show::show(own.graffiti()))); r.reads.push(("value", "proposer_slashings", Show::show(own.proposer_slashings()))); r.reads.push(("value", "attester_slashings", Show::show(own.attester_slashings()))); r.reads.push(("value", "attestations", Show::show(own.attestations()))); r.reads.push(("value", "deposits", Show::show(own.deposits()))); r.reads.push(("value", "voluntary_exits", Show::show(own.voluntary_exits()))); r.reads.push(("value", "sync_aggregate", Show::show(own.sync_aggregate()))); r.reads.push(("value", "execution_payload", Show::show(own.execution_payload()))); r.reads.push(("value", "bls_to_execution_changes", Show::show(own.bls_to_execution_changes()))); r.reads.push(("value", "blob_kzg_commitments", Show::show(own.blob_kzg_commitments())));
            if let Some(y) = own.phase0() { r.conversions.push(("value", "phase0", bytes(y))); } if let Some(y) = own.altair() { r.conversions.push(("value", "altair", bytes(y))); } if let Some(y) = own.bellatrix() { r.conversions.push(("value", "bellatrix", bytes(y))); } if let Some(y) = own.capella() { r.conversions.push(("value", "capella", bytes(y))); } if let Some(y) = own.deneb() { r.conversions.push(("value", "deneb", bytes(y))); }
            r.ssz = bytes(&own);
            r.json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
            let tree: serde_json::Value = serde_json::from_str(&r.json).map_err(|e| e.to_string())?;
            for back in [serde_json::from_str::<types::minimal::BeaconBlockBody>(&r.json), serde_json::from_value(tree)] {
                r.back.push(back.map(|x| (format!("{:?}", x.version()), bytes(&x))).map_err(|e| e.to_string()));
            }
            let there = match field { "randao_reveal" => Put::put(own.randao_reveal_mut(), new), "eth1_data" => Put::put(own.eth1_data_mut(), new), "graffiti" => Put::put(own.graffiti_mut(), new), "proposer_slashings" => Put::put(own.proposer_slashings_mut(), new), "attester_slashings" => Put::put(own.attester_slashings_mut(), new), "attestations" => Put::put(own.attestations_mut(), new), "deposits" => Put::put(own.deposits_mut(), new), "voluntary_exits" => Put::put(own.voluntary_exits_mut(), new), "sync_aggregate" => Put::put(own.sync_aggregate_mut(), new), "execution_payload" => Put::put(own.execution_payload_mut(), new), "bls_to_execution_changes" => Put::put(own.bls_to_execution_changes_mut(), new), "blob_kzg_commitments" => Put::put(own.blob_kzg_commitments_mut(), new), _ => panic!("{field}") };
            r.writes.push(("value", there, bytes(&own)));
            let mut own = types::minimal::BeaconBlockBody::Capella(x.clone());
            r.conversions.extend(own.capella_mut().map(|y| ("value to write", "capella", bytes(y))));
            if own.phase0_mut().is_some() { r.conversions.push(("value to write", "phase0", vec![])); }
            if own.altair_mut().is_some() { r.conversions.push(("value to write", "altair", vec![])); }
            if own.bellatrix_mut().is_some() { r.conversions.push(("value to write", "bellatrix", vec![])); }
            if own.deneb_mut().is_some() { r.conversions.push(("value to write", "deneb", vec![])); }
            let shared = types::BeaconBlockBodyRef::<{ ec::deneb::minimal::MAX_PROPOSER_SLASHINGS }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::deneb::minimal::MAX_ATTESTER_SLASHINGS }, { ec::deneb::minimal::MAX_ATTESTATIONS }, { ec::deneb::minimal::MAX_DEPOSITS }, { ec::deneb::minimal::MAX_VOLUNTARY_EXITS }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BYTES_PER_TRANSACTION }, { ec::deneb::minimal::MAX_TRANSACTIONS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_WITHDRAWALS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_BLS_TO_EXECUTION_CHANGES }, { ec::deneb::minimal::MAX_BLOB_COMMITMENTS_PER_BLOCK }>::from(&x);
            r.version.push(("shared", format!("{:?}", shared.version())));
            r.root.push(("shared", root(&shared)));
            r.reads.push(("shared", "randao_reveal", Show::show(shared.randao_reveal()))); r.reads.push(("shared", "eth1_data", Show::show(shared.eth1_data()))); r.reads.push(("shared", "graffiti", Show::show(shared.graffiti()))); r.reads.push(("shared", "proposer_slashings", Show::show(shared.proposer_slashings()))); r.reads.push(("shared", "attester_slashings", Show::show(shared.attester_slashings()))); r.reads.push(("shared", "attestations", Show::show(shared.attestations()))); r.reads.push(("shared", "deposits", Show::show(shared.deposits()))); r.reads.push(("shared", "voluntary_exits", Show::show(shared.voluntary_exits()))); r.reads.push(("shared", "sync_aggregate", Show::show(shared.sync_aggregate()))); r.reads.push(("shared", "execution_payload", Show::show(shared.execution_payload()))); r.reads.push(("shared", "bls_to_execution_changes", Show::show(shared.bls_to_execution_changes()))); r.reads.push(("shared", "blob_kzg_commitments", Show::show(shared.blob_kzg_commitments())));
            if let Some(y) = shared.phase0() { r.conversions.push(("shared", "phase0", bytes(y))); } if let Some(y) = shared.altair() { r.conversions.push(("shared", "altair", bytes(y))); } if let Some(y) = shared.bellatrix() { r.conversions.push(("shared", "bellatrix", bytes(y))); } if let Some(y) = shared.capella() { r.conversions.push(("shared", "capella", bytes(y))); } if let Some(y) = shared.deneb() { r.conversions.push(("shared", "deneb", bytes(y))); }
            let mut y = x.clone();
            let mut excl = types::BeaconBlockBodyRefMut::<{ ec::deneb::minimal::MAX_PROPOSER_SLASHINGS }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::deneb::minimal::MAX_ATTESTER_SLASHINGS }, { ec::deneb::minimal::MAX_ATTESTATIONS }, { ec::deneb::minimal::MAX_DEPOSITS }, { ec::deneb::minimal::MAX_VOLUNTARY_EXITS }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BYTES_PER_TRANSACTION }, { ec::deneb::minimal::MAX_TRANSACTIONS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_WITHDRAWALS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_BLS_TO_EXECUTION_CHANGES }, { ec::deneb::minimal::MAX_BLOB_COMMITMENTS_PER_BLOCK }>::from(&mut y);
            r.version.push(("exclusive", format!("{:?}", excl.version())));
            r.root.push(("exclusive", root(&excl)));
            r.reads.push(("exclusive", "randao_reveal", Show::show(excl.randao_reveal()))); r.reads.push(("exclusive", "eth1_data", Show::show(excl.eth1_data()))); r.reads.push(("exclusive", "graffiti", Show::show(excl.graffiti()))); r.reads.push(("exclusive", "proposer_slashings", Show::show(excl.proposer_slashings()))); r.reads.push(("exclusive", "attester_slashings", Show::show(excl.attester_slashings()))); r.reads.push(("exclusive", "attestations", Show::show(excl.attestations()))); r.reads.push(("exclusive", "deposits", Show::show(excl.deposits()))); r.reads.push(("exclusive", "voluntary_exits", Show::show(excl.voluntary_exits()))); r.reads.push(("exclusive", "sync_aggregate", Show::show(excl.sync_aggregate()))); r.reads.push(("exclusive", "execution_payload", Show::show(excl.execution_payload()))); r.reads.push(("exclusive", "bls_to_execution_changes", Show::show(excl.bls_to_execution_changes()))); r.reads.push(("exclusive", "blob_kzg_commitments", Show::show(excl.blob_kzg_commitments())));
            if let Some(y) = excl.phase0() { r.conversions.push(("exclusive", "phase0", bytes(y))); } if let Some(y) = excl.altair() { r.conversions.push(("exclusive", "altair", bytes(y))); } if let Some(y) = excl.bellatrix() { r.conversions.push(("exclusive", "bellatrix", bytes(y))); } if let Some(y) = excl.capella() { r.conversions.push(("exclusive", "capella", bytes(y))); } if let Some(y) = excl.deneb() { r.conversions.push(("exclusive", "deneb", bytes(y))); }
            let there = match field { "randao_reveal" => Put::put(excl.randao_reveal_mut(), new), "eth1_data" => Put::put(excl.eth1_data_mut(), new), "graffiti" => Put::put(excl.graffiti_mut(), new), "proposer_slashings" => Put::put(excl.proposer_slashings_mut(), new), "attester_slashings" => Put::put(excl.attester_slashings_mut(), new), "attestations" => Put::put(excl.attestations_mut(), new), "deposits" => Put::put(excl.deposits_mut(), new), "voluntary_exits" => Put::put(excl.voluntary_exits_mut(), new), "sync_aggregate" => Put::put(excl.sync_aggregate_mut(), new), "execution_payload" => Put::put(excl.execution_payload_mut(), new), "bls_to_execution_changes" => Put::put(excl.bls_to_execution_changes_mut(), new), "blob_kzg_commitments" => Put::put(excl.blob_kzg_commitments_mut(), new), _ => panic!("{field}") };
            r.writes.push(("exclusive", there, bytes(&y)));
        }
        Fork::Deneb => {
            let x = ec::deneb::minimal::BeaconBlockBody::deserialize(b).map_err(|e| format!("{e:?}"))?;
            let mut own = types::minimal::BeaconBlockBody::Deneb(x.clone());
            r.version.push(("value", format!("{:?}", own.version())));
            r.root.push(("value", root(&own)));
            r.reads.push(("value", "randao_reveal", Show::show(own.randao_reveal()))); r.reads.push(("value", "eth1_data", Show::show(own.eth1_data()))); r.reads.push(("value", "graffiti", Show::show(own.graffiti()))); r.reads.push(("value", "proposer_slashings", Show::show(own.proposer_slashings()))); r.reads.push(("value", "attester_slashings", Show::show(own.attester_slashings()))); r.reads.push(("value", "attestations", Show::show(own.attestations()))); r.reads.push(("value", "deposits", Show::show(own.deposits()))); r.reads.push(("value", "voluntary_exits", Show::show(own.voluntary_exits()))); r.reads.push(("value", "sync_aggregate", Show::show(own.sync_aggregate()))); r.reads.push(("value", "execution_payload", Show::show(own.execution_payload()))); r.reads.push(("value", "bls_to_execution_changes", Show::show(own.bls_to_execution_changes()))); r.reads.push(("value", "blob_kzg_commitments", Show::show(own.blob_kzg_commitments())));
            if let Some(y) = own.phase0() { r.conversions.push(("value", "phase0", bytes(y))); } if let Some(y) = own.altair() { r.conversions.push(("value", "altair", bytes(y))); } if let Some(y) = own.bellatrix() { r.conversions.push(("value", "bellatrix", bytes(y))); } if let Some(y) = own.capella() { r.conversions.push(("value", "capella", bytes(y))); } if let Some(y) = own.deneb() { r.conversions.push(("value", "deneb", bytes(y))); }
            r.ssz = bytes(&own);
            r.json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
            let tree: serde_json::Value = serde_json::from_str(&r.json).map_err(|e| e.to_string())?;
            for back in [serde_json::from_str::<types::minimal::BeaconBlockBody>(&r.json), serde_json::from_value(tree)] {
                r.back.push(back.map(|x| (format!("{:?}", x.version()), bytes(&x))).map_err(|e| e.to_string()));
            }
            let there = match field { "randao_reveal" => Put::put(own.randao_reveal_mut(), new), "eth1_data" => Put::put(own.eth1_data_mut(), new), "graffiti" => Put::put(own.graffiti_mut(), new), "proposer_slashings" => Put::put(own.proposer_slashings_mut(), new), "attester_slashings" => Put::put(own.attester_slashings_mut(), new), "attestations" => Put::put(own.attestations_mut(), new), "deposits" => Put::put(own.deposits_mut(), new), "voluntary_exits" => Put::put(own.voluntary_exits_mut(), new), "sync_aggregate" => Put::put(own.sync_aggregate_mut(), new), "execution_payload" => Put::put(own.execution_payload_mut(), new), "bls_to_execution_changes" => Put::put(own.bls_to_execution_changes_mut(), new), "blob_kzg_commitments" => Put::put(own.blob_kzg_commitments_mut(), new), _ => panic!("{field}") };
            r.writes.push(("value", there, bytes(&own)));
            let mut own = types::minimal::BeaconBlockBody::Deneb(x.clone());
            r.conversions.extend(own.deneb_mut().map(|y| ("value to write", "deneb", bytes(y))));
            if own.phase0_mut().is_some() { r.conversions.push(("value to write", "phase0", vec![])); }
            if own.altair_mut().is_some() { r.conversions.push(("value to write", "altair", vec![])); }
            if own.bellatrix_mut().is_some() { r.conversions.push(("value to write", "bellatrix", vec![])); }
            if own.capella_mut().is_some() { r.conversions.push(("value to write", "capella", vec![])); }
            let shared = types::BeaconBlockBodyRef::<{ ec::deneb::minimal::MAX_PROPOSER_SLASHINGS }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::deneb::minimal::MAX_ATTESTER_SLASHINGS }, { ec::deneb::minimal::MAX_ATTESTATIONS }, { ec::deneb::minimal::MAX_DEPOSITS }, { ec::deneb::minimal::MAX_VOLUNTARY_EXITS }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BYTES_PER_TRANSACTION }, { ec::deneb::minimal::MAX_TRANSACTIONS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_WITHDRAWALS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_BLS_TO_EXECUTION_CHANGES }, { ec::deneb::minimal::MAX_BLOB_COMMITMENTS_PER_BLOCK }>::from(&x);
            r.version.push(("shared", format!("{:?}", shared.version())));
            r.root.push(("shared", root(&shared)));
            r.reads.push(("shared", "randao_reveal", Show::show(shared.randao_reveal()))); r.reads.push(("shared", "eth1_data", Show::show(shared.eth1_data()))); r.reads.push(("shared", "graffiti", Show::show(shared.graffiti()))); r.reads.push(("shared", "proposer_slashings", Show::show(shared.proposer_slashings()))); r.reads.push(("shared", "attester_slashings", Show::show(shared.attester_slashings()))); r.reads.push(("shared", "attestations", Show::show(shared.attestations()))); r.reads.push(("shared", "deposits", Show::show(shared.deposits()))); r.reads.push(("shared", "voluntary_exits", Show::show(shared.voluntary_exits()))); r.reads.push(("shared", "sync_aggregate", Show::show(shared.sync_aggregate()))); r.reads.push(("shared", "execution_payload", Show::show(shared.execution_payload()))); r.reads.push(("shared", "bls_to_execution_changes", Show::show(shared.bls_to_execution_changes()))); r.reads.push(("shared", "blob_kzg_commitments", Show::show(shared.blob_kzg_commitments())));
            if let Some(y) = shared.phase0() { r.conversions.push(("shared", "phase0", bytes(y))); } if let Some(y) = shared.altair() { r.conversions.push(("shared", "altair", bytes(y))); } if let Some(y) = shared.bellatrix() { r.conversions.push(("shared", "bellatrix", bytes(y))); } if let Some(y) = shared.capella() { r.conversions.push(("shared", "capella", bytes(y))); } if let Some(y) = shared.deneb() { r.conversions.push(("shared", "deneb", bytes(y))); }
            let mut y = x.clone();
            let mut excl = types::BeaconBlockBodyRefMut::<{ ec::deneb::minimal::MAX_PROPOSER_SLASHINGS }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::deneb::minimal::MAX_ATTESTER_SLASHINGS }, { ec::deneb::minimal::MAX_ATTESTATIONS }, { ec::deneb::minimal::MAX_DEPOSITS }, { ec::deneb::minimal::MAX_VOLUNTARY_EXITS }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BYTES_PER_TRANSACTION }, { ec::deneb::minimal::MAX_TRANSACTIONS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_WITHDRAWALS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_BLS_TO_EXECUTION_CHANGES }, { ec::deneb::minimal::MAX_BLOB_COMMITMENTS_PER_BLOCK }>::from(&mut y);
            r.version.push(("exclusive", format!("{:?}", excl.version())));
            r.root.push(("exclusive", root(&excl)));
            r.reads.push(("exclusive", "randao_reveal", Show::show(excl.randao_reveal()))); r.reads.push(("exclusive", "eth1_data", Show::show(excl.eth1_data()))); r.reads.push(("exclusive", "graffiti", Show::show(excl.graffiti()))); r.reads.push(("exclusive", "proposer_slashings", Show::show(excl.proposer_slashings()))); r.reads.push(("exclusive", "attester_slashings", Show::show(excl.attester_slashings()))); r.reads.push(("exclusive", "attestations", Show::show(excl.attestations()))); r.reads.push(("exclusive", "deposits", Show::show(excl.deposits()))); r.reads.push(("exclusive", "voluntary_exits", Show::show(excl.voluntary_exits()))); r.reads.push(("exclusive", "sync_aggregate", Show::show(excl.sync_aggregate()))); r.reads.push(("exclusive", "execution_payload", Show::show(excl.execution_payload()))); r.reads.push(("exclusive", "bls_to_execution_changes", Show::show(excl.bls_to_execution_changes()))); r.reads.push(("exclusive", "blob_kzg_commitments", Show::show(excl.blob_kzg_commitments())));
            if let Some(y) = excl.phase0() { r.conversions.push(("exclusive", "phase0", bytes(y))); } if let Some(y) = excl.altair() { r.conversions.push(("exclusive", "altair", bytes(y))); } if let Some(y) = excl.bellatrix() { r.conversions.push(("exclusive", "bellatrix", bytes(y))); } if let Some(y) = excl.capella() { r.conversions.push(("exclusive", "capella", bytes(y))); } if let Some(y) = excl.deneb() { r.conversions.push(("exclusive", "deneb", bytes(y))); }
            let there = match field { "randao_reveal" => Put::put(excl.randao_reveal_mut(), new), "eth1_data" => Put::put(excl.eth1_data_mut(), new), "graffiti" => Put::put(excl.graffiti_mut(), new), "proposer_slashings" => Put::put(excl.proposer_slashings_mut(), new), "attester_slashings" => Put::put(excl.attester_slashings_mut(), new), "attestations" => Put::put(excl.attestations_mut(), new), "deposits" => Put::put(excl.deposits_mut(), new), "voluntary_exits" => Put::put(excl.voluntary_exits_mut(), new), "sync_aggregate" => Put::put(excl.sync_aggregate_mut(), new), "execution_payload" => Put::put(excl.execution_payload_mut(), new), "bls_to_execution_changes" => Put::put(excl.bls_to_execution_changes_mut(), new), "blob_kzg_commitments" => Put::put(excl.blob_kzg_commitments_mut(), new), _ => panic!("{field}") };
            r.writes.push(("exclusive", there, bytes(&y)));
        }
        _ => panic!("no such variant"),
        }
        Ok(r)
    })
}
fn beacon_block_body_large(f: Fork, b: &[u8]) -> Got<(String, Vec<u8>, H, String, (String, Vec<u8>))> {
    use ssz_rs::Deserialize;
    settle(|| {
        let own = match f {
            Fork::Phase0 => types::mainnet::BeaconBlockBody::Phase0(ec::phase0::mainnet::BeaconBlockBody::deserialize(b).map_err(|e| format!("{e:?}"))?),
            Fork::Altair => types::mainnet::BeaconBlockBody::Altair(ec::altair::mainnet::BeaconBlockBody::deserialize(b).map_err(|e| format!("{e:?}"))?),
            Fork::Bellatrix => types::mainnet::BeaconBlockBody::Bellatrix(ec::bellatrix::mainnet::BeaconBlockBody::deserialize(b).map_err(|e| format!("{e:?}"))?),
            Fork::Capella => types::mainnet::BeaconBlockBody::Capella(ec::capella::mainnet::BeaconBlockBody::deserialize(b).map_err(|e| format!("{e:?}"))?),
            Fork::Deneb => types::mainnet::BeaconBlockBody::Deneb(ec::deneb::mainnet::BeaconBlockBody::deserialize(b).map_err(|e| format!("{e:?}"))?),
            _ => panic!("no such variant"),
        };
        let json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
        let back: types::mainnet::BeaconBlockBody = serde_json::from_str(&json).map_err(|e| e.to_string())?;
        Ok((format!("{:?}", own.version()), bytes(&own), root(&own), json, (format!("{:?}", back.version()), bytes(&back))))
    })
}
fn blinded_beacon_block(f: Fork, b: &[u8], field: &str, new: &[u8]) -> Got<Report> {
    use ssz_rs::Deserialize;
    settle(|| {
        let mut r = Report::default();
        match f {
        Fork::Bellatrix => {
            let x = ec::bellatrix::minimal::BlindedBeaconBlock::deserialize(b).map_err(|e| format!("{e:?}"))?;
            let mut own = types::minimal::BlindedBeaconBlock::Bellatrix(x.clone());
            r.version.push(("value", format!("{:?}", own.version())));
            r.root.push(("value", root(&own)));
            r.reads.push(("value", "slot", Show::show(own.slot()))); r.reads.push(("value", "proposer_index", Show::show(own.proposer_index()))); r.reads.push(("value", "parent_root", Show::show(own.parent_root()))); r.reads.push(("value", "state_root", Show::show(own.state_root()))); r.reads.push(("value", "body", Show::show(own.body())));
            if let Some(y) = own.bellatrix() { r.conversions.push(("value", "bellatrix", bytes(y))); } if let Some(y) = own.capella() { r.conversions.push(("value", "capella", bytes(y))); } if let Some(y) = own.deneb() { r.conversions.push(("value", "deneb", bytes(y))); }
            r.ssz = bytes(&own);
            r.json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
            let tree: serde_json::Value = serde_json::from_str(&r.json).map_err(|e| e.to_string())?;
            for back in [serde_json::from_str::<types::minimal::BlindedBeaconBlock>(&r.json), serde_json::from_value(tree)] {
                r.back.push(back.map(|x| (format!("{:?}", x.version()), bytes(&x))).map_err(|e| e.to_string()));
            }
            let there = match field { "slot" => Put::put(own.slot_mut(), new), "proposer_index" => Put::put(own.proposer_index_mut(), new), "parent_root" => Put::put(own.parent_root_mut(), new), "state_root" => Put::put(own.state_root_mut(), new), "body" => Put::put(own.body_mut(), new), _ => panic!("{field}") };
            r.writes.push(("value", there, bytes(&own)));
            let mut own = types::minimal::BlindedBeaconBlock::Bellatrix(x.clone());
            r.conversions.extend(own.bellatrix_mut().map(|y| ("value to write", "bellatrix", bytes(y))));
            if own.capella_mut().is_some() { r.conversions.push(("value to write", "capella", vec![])); }
            if own.deneb_mut().is_some() { r.conversions.push(("value to write", "deneb", vec![])); }
            let shared = types::BlindedBeaconBlockRef::<{ ec::deneb::minimal::MAX_PROPOSER_SLASHINGS }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::deneb::minimal::MAX_ATTESTER_SLASHINGS }, { ec::deneb::minimal::MAX_ATTESTATIONS }, { ec::deneb::minimal::MAX_DEPOSITS }, { ec::deneb::minimal::MAX_VOLUNTARY_EXITS }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BLS_TO_EXECUTION_CHANGES }, { ec::deneb::minimal::MAX_BLOB_COMMITMENTS_PER_BLOCK }>::from(&x);
            r.version.push(("shared", format!("{:?}", shared.version())));
            r.root.push(("shared", root(&shared)));
            r.reads.push(("shared", "slot", Show::show(shared.slot()))); r.reads.push(("shared", "proposer_index", Show::show(shared.proposer_index()))); r.reads.push(("shared", "parent_root", Show::show(shared.parent_root()))); r.reads.push(("shared", "state_root", Show::show(shared.state_root()))); r.reads.push(("shared", "body", Show::show(shared.body())));
            if let Some(y) = shared.bellatrix() { r.conversions.push(("shared", "bellatrix", bytes(y))); } if let Some(y) = shared.capella() { r.conversions.push(("shared", "capella", bytes(y))); } if let Some(y) = shared.deneb() { r.conversions.push(("shared", "deneb", bytes(y))); }
            let mut y = x.clone();
            let mut excl = types::BlindedBeaconBlockRefMut::<{ ec::deneb::minimal::MAX_PROPOSER_SLASHINGS }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::deneb::minimal::MAX_ATTESTER_SLASHINGS }, { ec::deneb::minimal::MAX_ATTESTATIONS }, { ec::deneb::minimal::MAX_DEPOSITS }, { ec::deneb::minimal::MAX_VOLUNTARY_EXITS }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BLS_TO_EXECUTION_CHANGES }, { ec::deneb::minimal::MAX_BLOB_COMMITMENTS_PER_BLOCK }>::from(&mut y);
            r.version.push(("exclusive", format!("{:?}", excl.version())));
            r.root.push(("exclusive", root(&excl)));
            r.reads.push(("exclusive", "slot", Show::show(excl.slot()))); r.reads.push(("exclusive", "proposer_index", Show::show(excl.proposer_index()))); r.reads.push(("exclusive", "parent_root", Show::show(excl.parent_root()))); r.reads.push(("exclusive", "state_root", Show::show(excl.state_root()))); r.reads.push(("exclusive", "body", Show::show(excl.body())));
            if let Some(y) = excl.bellatrix() { r.conversions.push(("exclusive", "bellatrix", bytes(y))); } if let Some(y) = excl.capella() { r.conversions.push(("exclusive", "capella", bytes(y))); } if let Some(y) = excl.deneb() { r.conversions.push(("exclusive", "deneb", bytes(y))); }
            let there = match field { "slot" => Put::put(excl.slot_mut(), new), "proposer_index" => Put::put(excl.proposer_index_mut(), new), "parent_root" => Put::put(excl.parent_root_mut(), new), "state_root" => Put::put(excl.state_root_mut(), new), "body" => Put::put(excl.body_mut(), new), _ => panic!("{field}") };
            r.writes.push(("exclusive", there, bytes(&y)));
        }
        Fork::Capella => {
            let x = ec::capella::minimal::BlindedBeaconBlock::deserialize(b).map_err(|e| format!("{e:?}"))?;
            let mut own = types::minimal::BlindedBeaconBlock::Capella(x.clone());
            r.version.push(("value", format!("{:?}", own.version())));
            r.root.push(("value", root(&own)));
            r.reads.push(("value", "slot", Show::show(own.slot()))); r.reads.push(("value", "proposer_index", Show::show(own.proposer_index()))); r.reads.push(("value", "parent_root", Show::show(own.parent_root()))); r.reads.push(("value", "state_root", Show::show(own.state_root()))); r.reads.push(("value", "body", Show::show(own.body())));
            if let Some(y) = own.bellatrix() { r.conversions.push(("value", "bellatrix", bytes(y))); } if let Some(y) = own.capella() { r.conversions.push(("value", "capella", bytes(y))); } if let Some(y) = own.deneb() { r.conversions.push(("value", "deneb", bytes(y))); }
            r.ssz = bytes(&own);
            r.json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
            let tree: serde_json::Value = serde_json::from_str(&r.json).map_err(|e| e.to_string())?;
            for back in [serde_json::from_str::<types::minimal::BlindedBeaconBlock>(&r.json), serde_json::from_value(tree)] {
                r.back.push(back.map(|x| (format!("{:?}", x.version()), bytes(&x))).map_err(|e| e.to_string()));
            }
            let there = match field { "slot" => Put::put(own.slot_mut(), new), "proposer_index" => Put::put(own.proposer_index_mut(), new), "parent_root" => Put::put(own.parent_root_mut(), new), "state_root" => Put::put(own.state_root_mut(), new), "body" => Put::put(own.body_mut(), new), _ => panic!("{field}") };
            r.writes.push(("value", there, bytes(&own)));
            let mut own = types::minimal::BlindedBeaconBlock::Capella(x.clone());
            r.conversions.extend(own.capella_mut().map(|y| ("value to write", "capella", bytes(y))));
            if own.bellatrix_mut().is_some() { r.conversions.push(("value to write", "bellatrix", vec![])); }
            if own.deneb_mut().is_some() { r.conversions.push(("value to write", "deneb", vec![])); }
            let shared = types::BlindedBeaconBlockRef::<{ ec::deneb::minimal::MAX_PROPOSER_SLASHINGS }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::deneb::minimal::MAX_ATTESTER_SLASHINGS }, { ec::deneb::minimal::MAX_ATTESTATIONS }, { ec::deneb::minimal::MAX_DEPOSITS }, { ec::deneb::minimal::MAX_VOLUNTARY_EXITS }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BLS_TO_EXECUTION_CHANGES }, { ec::deneb::minimal::MAX_BLOB_COMMITMENTS_PER_BLOCK }>::from(&x);
            r.version.push(("shared", format!("{:?}", shared.version())));
            r.root.push(("shared", root(&shared)));
            r.reads.push(("shared", "slot", Show::show(shared.slot()))); r.reads.push(("shared", "proposer_index", Show::show(shared.proposer_index()))); r.reads.push(("shared", "parent_root", Show::show(shared.parent_root()))); r.reads.push(("shared", "state_root", Show::show(shared.state_root()))); r.reads.push(("shared", "body", Show::show(shared.body())));
            if let Some(y) = shared.bellatrix() { r.conversions.push(("shared", "bellatrix", bytes(y))); } if let Some(y) = shared.capella() { r.conversions.push(("shared", "capella", bytes(y))); } if let Some(y) = shared.deneb() { r.conversions.push(("shared", "deneb", bytes(y))); }
            let mut y = x.clone();
            let mut excl = types::BlindedBeaconBlockRefMut::<{ ec::deneb::minimal::MAX_PROPOSER_SLASHINGS }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::deneb::minimal::MAX_ATTESTER_SLASHINGS }, { ec::deneb::minimal::MAX_ATTESTATIONS }, { ec::deneb::minimal::MAX_DEPOSITS }, { ec::deneb::minimal::MAX_VOLUNTARY_EXITS }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BLS_TO_EXECUTION_CHANGES }, { ec::deneb::minimal::MAX_BLOB_COMMITMENTS_PER_BLOCK }>::from(&mut y);
            r.version.push(("exclusive", format!("{:?}", excl.version())));
            r.root.push(("exclusive", root(&excl)));
            r.reads.push(("exclusive", "slot", Show::show(excl.slot()))); r.reads.push(("exclusive", "proposer_index", Show::show(excl.proposer_index()))); r.reads.push(("exclusive", "parent_root", Show::show(excl.parent_root()))); r.reads.push(("exclusive", "state_root", Show::show(excl.state_root()))); r.reads.push(("exclusive", "body", Show::show(excl.body())));
            if let Some(y) = excl.bellatrix() { r.conversions.push(("exclusive", "bellatrix", bytes(y))); } if let Some(y) = excl.capella() { r.conversions.push(("exclusive", "capella", bytes(y))); } if let Some(y) = excl.deneb() { r.conversions.push(("exclusive", "deneb", bytes(y))); }
            let there = match field { "slot" => Put::put(excl.slot_mut(), new), "proposer_index" => Put::put(excl.proposer_index_mut(), new), "parent_root" => Put::put(excl.parent_root_mut(), new), "state_root" => Put::put(excl.state_root_mut(), new), "body" => Put::put(excl.body_mut(), new), _ => panic!("{field}") };
            r.writes.push(("exclusive", there, bytes(&y)));
        }
        Fork::Deneb => {
            let x = ec::deneb::minimal::BlindedBeaconBlock::deserialize(b).map_err(|e| format!("{e:?}"))?;
            let mut own = types::minimal::BlindedBeaconBlock::Deneb(x.clone());
            r.version.push(("value", format!("{:?}", own.version())));
            r.root.push(("value", root(&own)));
            r.reads.push(("value", "slot", Show::show(own.slot()))); r.reads.push(("value", "proposer_index", Show::show(own.proposer_index()))); r.reads.push(("value", "parent_root", Show::show(own.parent_root()))); r.reads.push(("value", "state_root", Show::show(own.state_root()))); r.reads.push(("value", "body", Show::show(own.body())));
            if let Some(y) = own.bellatrix() { r.conversions.push(("value", "bellatrix", bytes(y))); } if let Some(y) = own.capella() { r.conversions.push(("value", "capella", bytes(y))); } if let Some(y) = own.deneb() { r.conversions.push(("value", "deneb", bytes(y))); }
            r.ssz = bytes(&own);
            r.json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
            let tree: serde_json::Value = serde_json::from_str(&r.json).map_err(|e| e.to_string())?;
            for back in [serde_json::from_str::<types::minimal::BlindedBeaconBlock>(&r.json), serde_json::from_value(tree)] {
                r.back.push(back.map(|x| (format!("{:?}", x.version()), bytes(&x))).map_err(|e| e.to_string()));
            }
            let there = match field { "slot" => Put::put(own.slot_mut(), new), "proposer_index" => Put::put(own.proposer_index_mut(), new), "parent_root" => Put::put(own.parent_root_mut(), new), "state_root" => Put::put(own.state_root_mut(), new), "body" => Put::put(own.body_mut(), new), _ => panic!("{field}") };
            r.writes.push(("value", there, bytes(&own)));
            let mut own = types::minimal::BlindedBeaconBlock::Deneb(x.clone());
            r.conversions.extend(own.deneb_mut().map(|y| ("value to write", "deneb", bytes(y))));
            if own.bellatrix_mut().is_some() { r.conversions.push(("value to write", "bellatrix", vec![])); }
            if own.capella_mut().is_some() { r.conversions.push(("value to write", "capella", vec![])); }
            let shared = types::BlindedBeaconBlockRef::<{ ec::deneb::minimal::MAX_PROPOSER_SLASHINGS }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::deneb::minimal::MAX_ATTESTER_SLASHINGS }, { ec::deneb::minimal::MAX_ATTESTATIONS }, { ec::deneb::minimal::MAX_DEPOSITS }, { ec::deneb::minimal::MAX_VOLUNTARY_EXITS }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BLS_TO_EXECUTION_CHANGES }, { ec::deneb::minimal::MAX_BLOB_COMMITMENTS_PER_BLOCK }>::from(&x);
            r.version.push(("shared", format!("{:?}", shared.version())));
            r.root.push(("shared", root(&shared)));
            r.reads.push(("shared", "slot", Show::show(shared.slot()))); r.reads.push(("shared", "proposer_index", Show::show(shared.proposer_index()))); r.reads.push(("shared", "parent_root", Show::show(shared.parent_root()))); r.reads.push(("shared", "state_root", Show::show(shared.state_root()))); r.reads.push(("shared", "body", Show::show(shared.body())));
            if let Some(y) = shared.bellatrix() { r.conversions.push(("shared", "bellatrix", bytes(y))); } if let Some(y) = shared.capella() { r.conversions.push(("shared", "capella", bytes(y))); } if let Some(y) = shared.deneb() { r.conversions.push(("shared", "deneb", bytes(y))); }
            let mut y = x.clone();
            let mut excl = types::BlindedBeaconBlockRefMut::<{ ec::deneb::minimal::MAX_PROPOSER_SLASHINGS }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::deneb::minimal::MAX_ATTESTER_SLASHINGS }, { ec::deneb::minimal::MAX_ATTESTATIONS }, { ec::deneb::minimal::MAX_DEPOSITS }, { ec::deneb::minimal::MAX_VOLUNTARY_EXITS }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BLS_TO_EXECUTION_CHANGES }, { ec::deneb::minimal::MAX_BLOB_COMMITMENTS_PER_BLOCK }>::from(&mut y);
            r.version.push(("exclusive", format!("{:?}", excl.version())));
            r.root.push(("exclusive", root(&excl)));
            r.reads.push(("exclusive", "slot", Show::show(excl.slot()))); r.reads.push(("exclusive", "proposer_index", Show::show(excl.proposer_index()))); r.reads.push(("exclusive", "parent_root", Show::show(excl.parent_root()))); r.reads.push(("exclusive", "state_root", Show::show(excl.state_root()))); r.reads.push(("exclusive", "body", Show::show(excl.body())));
            if let Some(y) = excl.bellatrix() { r.conversions.push(("exclusive", "bellatrix", bytes(y))); } if let Some(y) = excl.capella() { r.conversions.push(("exclusive", "capella", bytes(y))); } if let Some(y) = excl.deneb() { r.conversions.push(("exclusive", "deneb", bytes(y))); }
            let there = match field { "slot" => Put::put(excl.slot_mut(), new), "proposer_index" => Put::put(excl.proposer_index_mut(), new), "parent_root" => Put::put(excl.parent_root_mut(), new), "state_root" => Put::put(excl.state_root_mut(), new), "body" => Put::put(excl.body_mut(), new), _ => panic!("{field}") };
            r.writes.push(("exclusive", there, bytes(&y)));
        }
        _ => panic!("no such variant"),
        }
        Ok(r)
    })
}
fn blinded_beacon_block_large(f: Fork, b: &[u8]) -> Got<(String, Vec<u8>, H, String, (String, Vec<u8>))> {
    use ssz_rs::Deserialize;
    settle(|| {
        let own = match f {
            Fork::Bellatrix => types::mainnet::BlindedBeaconBlock::Bellatrix(ec::bellatrix::mainnet::BlindedBeaconBlock::deserialize(b).map_err(|e| format!("{e:?}"))?),
            Fork::Capella => types::mainnet::BlindedBeaconBlock::Capella(ec::capella::mainnet::BlindedBeaconBlock::deserialize(b).map_err(|e| format!("{e:?}"))?),
            Fork::Deneb => types::mainnet::BlindedBeaconBlock::Deneb(ec::deneb::mainnet::BlindedBeaconBlock::deserialize(b).map_err(|e| format!("{e:?}"))?),
            _ => panic!("no such variant"),
        };
        let json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
        let back: types::mainnet::BlindedBeaconBlock = serde_json::from_str(&json).map_err(|e| e.to_string())?;
        Ok((format!("{:?}", own.version()), bytes(&own), root(&own), json, (format!("{:?}", back.version()), bytes(&back))))
    })
}
fn blinded_beacon_block_body(f: Fork, b: &[u8], field: &str, new: &[u8]) -> Got<Report> {
    use ssz_rs::Deserialize;
    settle(|| {
        let mut r = Report::default();
        match f {
        Fork::Bellatrix => {
            let x = ec::bellatrix::minimal::BlindedBeaconBlockBody::deserialize(b).map_err(|e| format!("{e:?}"))?;
            let mut own = types::minimal::BlindedBeaconBlockBody::Bellatrix(x.clone());
            r.version.push(("value", format!("{:?}", own.version())));
            r.root.push(("value", root(&own)));
            r.reads.push(("value", "randao_reveal", Show::show(own.randao_reveal()))); r.reads.push(("value", "eth1_data", Show::show(own.eth1_data()))); r.reads.push(("value", "graffiti", Show::show(own.graffiti()))); r.reads.push(("value", "proposer_slashings", Show::show(own.proposer_slashings()))); r.reads.push(("value", "attester_slashings", Show::show(own.attester_slashings()))); r.reads.push(("value", "attestations", Show::show(own.attestations()))); r.reads.push(("value", "deposits", Show::show(own.deposits()))); r.reads.push(("value", "voluntary_exits", Show::show(own.voluntary_exits()))); r.reads.push(("value", "sync_aggregate", Show::show(own.sync_aggregate()))); r.reads.push(("value", "execution_payload_header", Show::show(own.execution_payload_header()))); r.reads.push(("value", "bls_to_execution_changes", Show::show(own.bls_to_execution_changes()))); r.reads.push(("value", "blob_kzg_commitments", Show::show(own.blob_kzg_commitments())));
            if let Some(y) = own.bellatrix() { r.conversions.push(("value", "bellatrix", bytes(y))); } if let Some(y) = own.capella() { r.conversions.push(("value", "capella", bytes(y))); } if let Some(y) = own.deneb() { r.conversions.push(("value", "deneb", bytes(y))); }
            r.ssz = bytes(&own);
            r.json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
            let tree: serde_json::Value = serde_json::from_str(&r.json).map_err(|e| e.to_string())?;
            for back in [serde_json::from_str::<types::minimal::BlindedBeaconBlockBody>(&r.json), serde_json::from_value(tree)] {
                r.back.push(back.map(|x| (format!("{:?}", x.version()), bytes(&x))).map_err(|e| e.to_string()));
            }
            let there = match field { "randao_reveal" => Put::put(own.randao_reveal_mut(), new), "eth1_data" => Put::put(own.eth1_data_mut(), new), "graffiti" => Put::put(own.graffiti_mut(), new), "proposer_slashings" => Put::put(own.proposer_slashings_mut(), new), "attester_slashings" => Put::put(own.attester_slashings_mut(), new), "attestations" => Put::put(own.attestations_mut(), new), "deposits" => Put::put(own.deposits_mut(), new), "voluntary_exits" => Put::put(own.voluntary_exits_mut(), new), "sync_aggregate" => Put::put(own.sync_aggregate_mut(), new), "execution_payload_header" => Put::put(own.execution_payload_header_mut(), new), "bls_to_execution_changes" => Put::put(own.bls_to_execution_changes_mut(), new), "blob_kzg_commitments" => Put::put(own.blob_kzg_commitments_mut(), new), _ => panic!("{field}") };
            r.writes.push(("value", there, bytes(&own)));
            let mut own = types::minimal::BlindedBeaconBlockBody::Bellatrix(x.clone());
            r.conversions.extend(own.bellatrix_mut().map(|y| ("value to write", "bellatrix", bytes(y))));
            if own.capella_mut().is_some() { r.conversions.push(("value to write", "capella", vec![])); }
            if own.deneb_mut().is_some() { r.conversions.push(("value to write", "deneb", vec![])); }
            let shared = types::BlindedBeaconBlockBodyRef::<{ ec::deneb::minimal::MAX_PROPOSER_SLASHINGS }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::deneb::minimal::MAX_ATTESTER_SLASHINGS }, { ec::deneb::minimal::MAX_ATTESTATIONS }, { ec::deneb::minimal::MAX_DEPOSITS }, { ec::deneb::minimal::MAX_VOLUNTARY_EXITS }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BLS_TO_EXECUTION_CHANGES }, { ec::deneb::minimal::MAX_BLOB_COMMITMENTS_PER_BLOCK }>::from(&x);
            r.version.push(("shared", format!("{:?}", shared.version())));
            r.root.push(("shared", root(&shared)));
            r.reads.push(("shared", "randao_reveal", Show::show(shared.randao_reveal()))); r.reads.push(("shared", "eth1_data", Show::show(shared.eth1_data()))); r.reads.push(("shared", "graffiti", Show::show(shared.graffiti()))); r.reads.push(("shared", "proposer_slashings", Show::show(shared.proposer_slashings()))); r.reads.push(("shared", "attester_slashings", Show::show(shared.attester_slashings()))); r.reads.push(("shared", "attestations", Show::show(shared.attestations()))); r.reads.push(("shared", "deposits", Show::show(shared.deposits()))); r.reads.push(("shared", "voluntary_exits", Show::show(shared.voluntary_exits()))); r.reads.push(("shared", "sync_aggregate", Show::show(shared.sync_aggregate()))); r.reads.push(("shared", "execution_payload_header", Show::show(shared.execution_payload_header()))); r.reads.push(("shared", "bls_to_execution_changes", Show::show(shared.bls_to_execution_changes()))); r.reads.push(("shared", "blob_kzg_commitments", Show::show(shared.blob_kzg_commitments())));
            if let Some(y) = shared.bellatrix() { r.conversions.push(("shared", "bellatrix", bytes(y))); } if let Some(y) = shared.capella() { r.conversions.push(("shared", "capella", bytes(y))); } if let Some(y) = shared.deneb() { r.conversions.push(("shared", "deneb", bytes(y))); }
            let mut y = x.clone();
            let mut excl = types::BlindedBeaconBlockBodyRefMut::<{ ec::deneb::minimal::MAX_PROPOSER_SLASHINGS }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::deneb::minimal::MAX_ATTESTER_SLASHINGS }, { ec::deneb::minimal::MAX_ATTESTATIONS }, { ec::deneb::minimal::MAX_DEPOSITS }, { ec::deneb::minimal::MAX_VOLUNTARY_EXITS }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BLS_TO_EXECUTION_CHANGES }, { ec::deneb::minimal::MAX_BLOB_COMMITMENTS_PER_BLOCK }>::from(&mut y);
            r.version.push(("exclusive", format!("{:?}", excl.version())));
            r.root.push(("exclusive", root(&excl)));
            r.reads.push(("exclusive", "randao_reveal", Show::show(excl.randao_reveal()))); r.reads.push(("exclusive", "eth1_data", Show::show(excl.eth1_data()))); r.reads.push(("exclusive", "graffiti", Show::show(excl.graffiti()))); r.reads.push(("exclusive", "proposer_slashings", Show::show(excl.proposer_slashings()))); r.reads.push(("exclusive", "attester_slashings", Show::show(excl.attester_slashings()))); r.reads.push(("exclusive", "attestations", Show::show(excl.attestations()))); r.reads.push(("exclusive", "deposits", Show::show(excl.deposits()))); r.reads.push(("exclusive", "voluntary_exits", Show::show(excl.voluntary_exits()))); r.reads.push(("exclusive", "sync_aggregate", Show::show(excl.sync_aggregate()))); r.reads.push(("exclusive", "execution_payload_header", Show::show(excl.execution_payload_header()))); r.reads.push(("exclusive", "bls_to_execution_changes", Show::show(excl.bls_to_execution_changes()))); r.reads.push(("exclusive", "blob_kzg_commitments", Show::show(excl.blob_kzg_commitments())));
            if let Some(y) = excl.bellatrix() { r.conversions.push(("exclusive", "bellatrix", bytes(y))); } if let Some(y) = excl.capella() { r.conversions.push(("exclusive", "capella", bytes(y))); } if let Some(y) = excl.deneb() { r.conversions.push(("exclusive", "deneb", bytes(y))); }
            let there = match field { "randao_reveal" => Put::put(excl.randao_reveal_mut(), new), "eth1_data" => Put::put(excl.eth1_data_mut(), new), "graffiti" => Put::put(excl.graffiti_mut(), new), "proposer_slashings" => Put::put(excl.proposer_slashings_mut(), new), "attester_slashings" => Put::put(excl.attester_slashings_mut(), new), "attestations" => Put::put(excl.attestations_mut(), new), "deposits" => Put::put(excl.deposits_mut(), new), "voluntary_exits" => Put::put(excl.voluntary_exits_mut(), new), "sync_aggregate" => Put::put(excl.sync_aggregate_mut(), new), "execution_payload_header" => Put::put(excl.execution_payload_header_mut(), new), "bls_to_execution_changes" => Put::put(excl.bls_to_execution_changes_mut(), new), "blob_kzg_commitments" => Put::put(excl.blob_kzg_commitments_mut(), new), _ => panic!("{field}") };
            r.writes.push(("exclusive", there, bytes(&y)));
        }
        Fork::Capella => {
            let x = ec::capella::minimal::BlindedBeaconBlockBody::deserialize(b).map_err(|e| format!("{e:?}"))?;
            let mut own = types::minimal::BlindedBeaconBlockBody::Capella(x.clone());
            r.version.push(("value", format!("{:?}", own.version())));
            r.root.push(("value", root(&own)));
            r.reads.push(("value", "randao_reveal", Show::show(own.randao_reveal()))); r.reads.push(("value", "eth1_data", Show::show(own.eth1_data()))); r.reads.push(("value", "graffiti", Show::show(own.graffiti()))); r.reads.push(("value", "proposer_slashings", Show::show(own.proposer_slashings()))); r.reads.push(("value", "attester_slashings", Show::show(own.attester_slashings()))); r.reads.push(("value", "attestations", Show::show(own.attestations()))); r.reads.push(("value", "deposits", Show::show(own.deposits()))); r.reads.push(("value", "voluntary_exits", Show::show(own.voluntary_exits()))); r.reads.push(("value", "sync_aggregate", Show::show(own.sync_aggregate()))); r.reads.push(("value", "execution_payload_header", Show::show(own.execution_payload_header()))); r.reads.push(("value", "bls_to_execution_changes", Show::show(own.bls_to_execution_changes()))); r.reads.push(("value", "blob_kzg_commitments", Show::show(own.blob_kzg_commitments())));
            if let Some(y) = own.bellatrix() { r.conversions.push(("value", "bellatrix", bytes(y))); } if let Some(y) = own.capella() { r.conversions.push(("value", "capella", bytes(y))); } if let Some(y) = own.deneb() { r.conversions.push(("value", "deneb", bytes(y))); }
            r.ssz = bytes(&own);
            r.json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
            let tree: serde_json::Value = serde_json::from_str(&r.json).map_err(|e| e.to_string())?;
            for back in [serde_json::from_str::<types::minimal::BlindedBeaconBlockBody>(&r.json), serde_json::from_value(tree)] {
                r.back.push(back.map(|x| (format!("{:?}", x.version()), bytes(&x))).map_err(|e| e.to_string()));
            }
            let there = match field { "randao_reveal" => Put::put(own.randao_reveal_mut(), new), "eth1_data" => Put::put(own.eth1_data_mut(), new), "graffiti" => Put::put(own.graffiti_mut(), new), "proposer_slashings" => Put::put(own.proposer_slashings_mut(), new), "attester_slashings" => Put::put(own.attester_slashings_mut(), new), "attestations" => Put::put(own.attestations_mut(), new), "deposits" => Put::put(own.deposits_mut(), new), "voluntary_exits" => Put::put(own.voluntary_exits_mut(), new), "sync_aggregate" => Put::put(own.sync_aggregate_mut(), new), "execution_payload_header" => Put::put(own.execution_payload_header_mut(), new), "bls_to_execution_changes" => Put::put(own.bls_to_execution_changes_mut(), new), "blob_kzg_commitments" => Put::put(own.blob_kzg_commitments_mut(), new), _ => panic!("{field}") };
            r.writes.push(("value", there, bytes(&own)));
            let mut own = types::minimal::BlindedBeaconBlockBody::Capella(x.clone());
            r.conversions.extend(own.capella_mut().map(|y| ("value to write", "capella", bytes(y))));
            if own.bellatrix_mut().is_some() { r.conversions.push(("value to write", "bellatrix", vec![])); }
            if own.deneb_mut().is_some() { r.conversions.push(("value to write", "deneb", vec![])); }
            let shared = types::BlindedBeaconBlockBodyRef::<{ ec::deneb::minimal::MAX_PROPOSER_SLASHINGS }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::deneb::minimal::MAX_ATTESTER_SLASHINGS }, { ec::deneb::minimal::MAX_ATTESTATIONS }, { ec::deneb::minimal::MAX_DEPOSITS }, { ec::deneb::minimal::MAX_VOLUNTARY_EXITS }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BLS_TO_EXECUTION_CHANGES }, { ec::deneb::minimal::MAX_BLOB_COMMITMENTS_PER_BLOCK }>::from(&x);
            r.version.push(("shared", format!("{:?}", shared.version())));
            r.root.push(("shared", root(&shared)));
            r.reads.push(("shared", "randao_reveal", Show::show(shared.randao_reveal()))); r.reads.push(("shared", "eth1_data", Show::show(shared.eth1_data()))); r.reads.push(("shared", "graffiti", Show::show(shared.graffiti()))); r.reads.push(("shared", "proposer_slashings", Show::show(shared.proposer_slashings()))); r.reads.push(("shared", "attester_slashings", Show::show(shared.attester_slashings()))); r.reads.push(("shared", "attestations", Show::show(shared.attestations()))); r.reads.push(("shared", "deposits", Show::show(shared.deposits()))); r.reads.push(("shared", "voluntary_exits", Show::show(shared.voluntary_exits()))); r.reads.push(("shared", "sync_aggregate", Show::show(shared.sync_aggregate()))); r.reads.push(("shared", "execution_payload_header", Show::show(shared.execution_payload_header()))); r.reads.push(("shared", "bls_to_execution_changes", Show::show(shared.bls_to_execution_changes()))); r.reads.push(("shared", "blob_kzg_commitments", Show::show(shared.blob_kzg_commitments())));
            if let Some(y) = shared.bellatrix() { r.conversions.push(("shared", "bellatrix", bytes(y))); } if let Some(y) = shared.capella() { r.conversions.push(("shared", "capella", bytes(y))); } if let Some(y) = shared.deneb() { r.conversions.push(("shared", "deneb", bytes(y))); }
            let mut y = x.clone();
            let mut excl = types::BlindedBeaconBlockBodyRefMut::<{ ec::deneb::minimal::MAX_PROPOSER_SLASHINGS }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::deneb::minimal::MAX_ATTESTER_SLASHINGS }, { ec::deneb::minimal::MAX_ATTESTATIONS }, { ec::deneb::minimal::MAX_DEPOSITS }, { ec::deneb::minimal::MAX_VOLUNTARY_EXITS }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BLS_TO_EXECUTION_CHANGES }, { ec::deneb::minimal::MAX_BLOB_COMMITMENTS_PER_BLOCK }>::from(&mut y);
            r.version.push(("exclusive", format!("{:?}", excl.version())));
            r.root.push(("exclusive", root(&excl)));
            r.reads.push(("exclusive", "randao_reveal", Show::show(excl.randao_reveal()))); r.reads.push(("exclusive", "eth1_data", Show::show(excl.eth1_data()))); r.reads.push(("exclusive", "graffiti", Show::show(excl.graffiti()))); r.reads.push(("exclusive", "proposer_slashings", Show::show(excl.proposer_slashings()))); r.reads.push(("exclusive", "attester_slashings", Show::show(excl.attester_slashings()))); r.reads.push(("exclusive", "attestations", Show::show(excl.attestations()))); r.reads.push(("exclusive", "deposits", Show::show(excl.deposits()))); r.reads.push(("exclusive", "voluntary_exits", Show::show(excl.voluntary_exits()))); r.reads.push(("exclusive", "sync_aggregate", Show::show(excl.sync_aggregate()))); r.reads.push(("exclusive", "execution_payload_header", Show::show(excl.execution_payload_header()))); r.reads.push(("exclusive", "bls_to_execution_changes", Show::show(excl.bls_to_execution_changes()))); r.reads.push(("exclusive", "blob_kzg_commitments", Show::show(excl.blob_kzg_commitments())));
            if let Some(y) = excl.bellatrix() { r.conversions.push(("exclusive", "bellatrix", bytes(y))); } if let Some(y) = excl.capella() { r.conversions.push(("exclusive", "capella", bytes(y))); } if let Some(y) = excl.deneb() { r.conversions.push(("exclusive", "deneb", bytes(y))); }
            let there = match field { "randao_reveal" => Put::put(excl.randao_reveal_mut(), new), "eth1_data" => Put::put(excl.eth1_data_mut(), new), "graffiti" => Put::put(excl.graffiti_mut(), new), "proposer_slashings" => Put::put(excl.proposer_slashings_mut(), new), "attester_slashings" => Put::put(excl.attester_slashings_mut(), new), "attestations" => Put::put(excl.attestations_mut(), new), "deposits" => Put::put(excl.deposits_mut(), new), "voluntary_exits" => Put::put(excl.voluntary_exits_mut(), new), "sync_aggregate" => Put::put(excl.sync_aggregate_mut(), new), "execution_payload_header" => Put::put(excl.execution_payload_header_mut(), new), "bls_to_execution_changes" => Put::put(excl.bls_to_execution_changes_mut(), new), "blob_kzg_commitments" => Put::put(excl.blob_kzg_commitments_mut(), new), _ => panic!("{field}") };
            r.writes.push(("exclusive", there, bytes(&y)));
        }
        Fork::Deneb => {
            let x = ec::deneb::minimal::BlindedBeaconBlockBody::deserialize(b).map_err(|e| format!("{e:?}"))?;
            let mut own = types::minimal::BlindedBeaconBlockBody::Deneb(x.clone());
            r.version.push(("value", format!("{:?}", own.version())));
            r.root.push(("value", root(&own)));
            r.reads.push(("value", "randao_reveal", Show::show(own.randao_reveal()))); r.reads.push(("value", "eth1_data", Show::show(own.eth1_data()))); r.reads.push(("value", "graffiti", Show::show(own.graffiti()))); r.reads.push(("value", "proposer_slashings", Show::show(own.proposer_slashings()))); r.reads.push(("value", "attester_slashings", Show::show(own.attester_slashings()))); r.reads.push(("value", "attestations", Show::show(own.attestations()))); r.reads.push(("value", "deposits", Show::show(own.deposits()))); r.reads.push(("value", "voluntary_exits", Show::show(own.voluntary_exits()))); r.reads.push(("value", "sync_aggregate", Show::show(own.sync_aggregate()))); r.reads.push(("value", "execution_payload_header", Show::show(own.execution_payload_header()))); r.reads.push(("value", "bls_to_execution_changes", Show::show(own.bls_to_execution_changes()))); r.reads.push(("value", "blob_kzg_commitments", Show::show(own.blob_kzg_commitments())));
            if let Some(y) = own.bellatrix() { r.conversions.push(("value", "bellatrix", bytes(y))); } if let Some(y) = own.capella() { r.conversions.push(("value", "capella", bytes(y))); } if let Some(y) = own.deneb() { r.conversions.push(("value", "deneb", bytes(y))); }
            r.ssz = bytes(&own);
            r.json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
            let tree: serde_json::Value = serde_json::from_str(&r.json).map_err(|e| e.to_string())?;
            for back in [serde_json::from_str::<types::minimal::BlindedBeaconBlockBody>(&r.json), serde_json::from_value(tree)] {
                r.back.push(back.map(|x| (format!("{:?}", x.version()), bytes(&x))).map_err(|e| e.to_string()));
            }
            let there = match field { "randao_reveal" => Put::put(own.randao_reveal_mut(), new), "eth1_data" => Put::put(own.eth1_data_mut(), new), "graffiti" => Put::put(own.graffiti_mut(), new), "proposer_slashings" => Put::put(own.proposer_slashings_mut(), new), "attester_slashings" => Put::put(own.attester_slashings_mut(), new), "attestations" => Put::put(own.attestations_mut(), new), "deposits" => Put::put(own.deposits_mut(), new), "voluntary_exits" => Put::put(own.voluntary_exits_mut(), new), "sync_aggregate" => Put::put(own.sync_aggregate_mut(), new), "execution_payload_header" => Put::put(own.execution_payload_header_mut(), new), "bls_to_execution_changes" => Put::put(own.bls_to_execution_changes_mut(), new), "blob_kzg_commitments" => Put::put(own.blob_kzg_commitments_mut(), new), _ => panic!("{field}") };
            r.writes.push(("value", there, bytes(&own)));
            let mut own = types::minimal::BlindedBeaconBlockBody::Deneb(x.clone());
            r.conversions.extend(own.deneb_mut().map(|y| ("value to write", "deneb", bytes(y))));
            if own.bellatrix_mut().is_some() { r.conversions.push(("value to write", "bellatrix", vec![])); }
            if own.capella_mut().is_some() { r.conversions.push(("value to write", "capella", vec![])); }
            let shared = types::BlindedBeaconBlockBodyRef::<{ ec::deneb::minimal::MAX_PROPOSER_SLASHINGS }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::deneb::minimal::MAX_ATTESTER_SLASHINGS }, { ec::deneb::minimal::MAX_ATTESTATIONS }, { ec::deneb::minimal::MAX_DEPOSITS }, { ec::deneb::minimal::MAX_VOLUNTARY_EXITS }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BLS_TO_EXECUTION_CHANGES }, { ec::deneb::minimal::MAX_BLOB_COMMITMENTS_PER_BLOCK }>::from(&x);
            r.version.push(("shared", format!("{:?}", shared.version())));
            r.root.push(("shared", root(&shared)));
            r.reads.push(("shared", "randao_reveal", Show::show(shared.randao_reveal()))); r.reads.push(("shared", "eth1_data", Show::show(shared.eth1_data()))); r.reads.push(("shared", "graffiti", Show::show(shared.graffiti()))); r.reads.push(("shared", "proposer_slashings", Show::show(shared.proposer_slashings()))); r.reads.push(("shared", "attester_slashings", Show::show(shared.attester_slashings()))); r.reads.push(("shared", "attestations", Show::show(shared.attestations()))); r.reads.push(("shared", "deposits", Show::show(shared.deposits()))); r.reads.push(("shared", "voluntary_exits", Show::show(shared.voluntary_exits()))); r.reads.push(("shared", "sync_aggregate", Show::show(shared.sync_aggregate()))); r.reads.push(("shared", "execution_payload_header", Show::show(shared.execution_payload_header()))); r.reads.push(("shared", "bls_to_execution_changes", Show::show(shared.bls_to_execution_changes()))); r.reads.push(("shared", "blob_kzg_commitments", Show::show(shared.blob_kzg_commitments())));
            if let Some(y) = shared.bellatrix() { r.conversions.push(("shared", "bellatrix", bytes(y))); } if let Some(y) = shared.capella() { r.conversions.push(("shared", "capella", bytes(y))); } if let Some(y) = shared.deneb() { r.conversions.push(("shared", "deneb", bytes(y))); }
            let mut y = x.clone();
            let mut excl = types::BlindedBeaconBlockBodyRefMut::<{ ec::deneb::minimal::MAX_PROPOSER_SLASHINGS }, { ec::deneb::minimal::MAX_VALIDATORS_PER_COMMITTEE }, { ec::deneb::minimal::MAX_ATTESTER_SLASHINGS }, { ec::deneb::minimal::MAX_ATTESTATIONS }, { ec::deneb::minimal::MAX_DEPOSITS }, { ec::deneb::minimal::MAX_VOLUNTARY_EXITS }, { ec::deneb::minimal::SYNC_COMMITTEE_SIZE }, { ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BLS_TO_EXECUTION_CHANGES }, { ec::deneb::minimal::MAX_BLOB_COMMITMENTS_PER_BLOCK }>::from(&mut y);
            r.version.push(("exclusive", format!("{:?}", excl.version())));
            r.root.push(("exclusive", root(&excl)));
            r.reads.push(("exclusive", "randao_reveal", Show::show(excl.randao_reveal()))); r.reads.push(("exclusive", "eth1_data", Show::show(excl.eth1_data()))); r.reads.push(("exclusive", "graffiti", Show::show(excl.graffiti()))); r.reads.push(("exclusive", "proposer_slashings", Show::show(excl.proposer_slashings()))); r.reads.push(("exclusive", "attester_slashings", Show::show(excl.attester_slashings()))); r.reads.push(("exclusive", "attestations", Show::show(excl.attestations()))); r.reads.push(("exclusive", "deposits", Show::show(excl.deposits()))); r.reads.push(("exclusive", "voluntary_exits", Show::show(excl.voluntary_exits()))); r.reads.push(("exclusive", "sync_aggregate", Show::show(excl.sync_aggregate()))); r.reads.push(("exclusive", "execution_payload_header", Show::show(excl.execution_payload_header()))); r.reads.push(("exclusive", "bls_to_execution_changes", Show::show(excl.bls_to_execution_changes()))); r.reads.push(("exclusive", "blob_kzg_commitments", Show::show(excl.blob_kzg_commitments())));
            if let Some(y) = excl.bellatrix() { r.conversions.push(("exclusive", "bellatrix", bytes(y))); } if let Some(y) = excl.capella() { r.conversions.push(("exclusive", "capella", bytes(y))); } if let Some(y) = excl.deneb() { r.conversions.push(("exclusive", "deneb", bytes(y))); }
            let there = match field { "randao_reveal" => Put::put(excl.randao_reveal_mut(), new), "eth1_data" => Put::put(excl.eth1_data_mut(), new), "graffiti" => Put::put(excl.graffiti_mut(), new), "proposer_slashings" => Put::put(excl.proposer_slashings_mut(), new), "attester_slashings" => Put::put(excl.attester_slashings_mut(), new), "attestations" => Put::put(excl.attestations_mut(), new), "deposits" => Put::put(excl.deposits_mut(), new), "voluntary_exits" => Put::put(excl.voluntary_exits_mut(), new), "sync_aggregate" => Put::put(excl.sync_aggregate_mut(), new), "execution_payload_header" => Put::put(excl.execution_payload_header_mut(), new), "bls_to_execution_changes" => Put::put(excl.bls_to_execution_changes_mut(), new), "blob_kzg_commitments" => Put::put(excl.blob_kzg_commitments_mut(), new), _ => panic!("{field}") };
            r.writes.push(("exclusive", there, bytes(&y)));
        }
        _ => panic!("no such variant"),
        }
        Ok(r)
    })
}
fn blinded_beacon_block_body_large(f: Fork, b: &[u8]) -> Got<(String, Vec<u8>, H, String, (String, Vec<u8>))> {
    use ssz_rs::Deserialize;
    settle(|| {
        let own = match f {
            Fork::Bellatrix => types::mainnet::BlindedBeaconBlockBody::Bellatrix(ec::bellatrix::mainnet::BlindedBeaconBlockBody::deserialize(b).map_err(|e| format!("{e:?}"))?),
            Fork::Capella => types::mainnet::BlindedBeaconBlockBody::Capella(ec::capella::mainnet::BlindedBeaconBlockBody::deserialize(b).map_err(|e| format!("{e:?}"))?),
            Fork::Deneb => types::mainnet::BlindedBeaconBlockBody::Deneb(ec::deneb::mainnet::BlindedBeaconBlockBody::deserialize(b).map_err(|e| format!("{e:?}"))?),
            _ => panic!("no such variant"),
        };
        let json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
        let back: types::mainnet::BlindedBeaconBlockBody = serde_json::from_str(&json).map_err(|e| e.to_string())?;
        Ok((format!("{:?}", own.version()), bytes(&own), root(&own), json, (format!("{:?}", back.version()), bytes(&back))))
    })
}
fn execution_payload(f: Fork, b: &[u8], field: &str, new: &[u8]) -> Got<Report> {
    use ssz_rs::Deserialize;
    settle(|| {
        let mut r = Report::default();
        match f {
        Fork::Bellatrix => {
            let x = ec::bellatrix::minimal::ExecutionPayload::deserialize(b).map_err(|e| format!("{e:?}"))?;
            let mut own = types::minimal::ExecutionPayload::Bellatrix(x.clone());
            r.version.push(("value", format!("{:?}", own.version())));
            r.root.push(("value", root(&own)));
            r.reads.push(("value", "parent_hash", Show::show(own.parent_hash()))); r.reads.push(("value", "fee_recipient", Show::show(own.fee_recipient()))); r.reads.push(("value", "state_root", Show::show(own.state_root()))); r.reads.push(("value", "receipts_root", Show::show(own.receipts_root()))); r.reads.push(("value", "logs_bloom", Show::show(own.logs_bloom()))); r.reads.push(("value", "prev_randao", Show::show(own.prev_randao()))); r.reads.push(("value", "block_number", Show::show(own.block_number()))); r.reads.push(("value", "gas_limit", Show::show(own.gas_limit()))); r.reads.push(("value", "gas_used", Show::show(own.gas_used()))); r.reads.push(("value", "timestamp", Show::show(own.timestamp()))); r.reads.push(("value", "extra_data", Show::show(own.extra_data()))); r.reads.push(("value", "base_fee_per_gas", Show::show(own.base_fee_per_gas()))); r.reads.push(("value", "block_hash", Show::show(own.block_hash()))); r.reads.push(("value", "transactions", Show::show(own.transactions()))); r.reads.push(("value", "withdrawals", Show::show(own.withdrawals()))); r.reads.push(("value", "blob_gas_used", Show::show(own.blob_gas_used()))); r.reads.push(("value", "excess_blob_gas", Show::show(own.excess_blob_gas())));
            if let Some(y) = own.bellatrix() { r.conversions.push(("value", "bellatrix", bytes(y))); } if let Some(y) = own.capella() { r.conversions.push(("value", "capella", bytes(y))); } if let Some(y) = own.deneb() { r.conversions.push(("value", "deneb", bytes(y))); }
            r.ssz = bytes(&own);
            r.json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
            let tree: serde_json::Value = serde_json::from_str(&r.json).map_err(|e| e.to_string())?;
            for back in [serde_json::from_str::<types::minimal::ExecutionPayload>(&r.json), serde_json::from_value(tree)] {
                r.back.push(back.map(|x| (format!("{:?}", x.version()), bytes(&x))).map_err(|e| e.to_string()));
            }
            let there = match field { "parent_hash" => Put::put(own.parent_hash_mut(), new), "fee_recipient" => Put::put(own.fee_recipient_mut(), new), "state_root" => Put::put(own.state_root_mut(), new), "receipts_root" => Put::put(own.receipts_root_mut(), new), "logs_bloom" => Put::put(own.logs_bloom_mut(), new), "prev_randao" => Put::put(own.prev_randao_mut(), new), "block_number" => Put::put(own.block_number_mut(), new), "gas_limit" => Put::put(own.gas_limit_mut(), new), "gas_used" => Put::put(own.gas_used_mut(), new), "timestamp" => Put::put(own.timestamp_mut(), new), "extra_data" => Put::put(own.extra_data_mut(), new), "base_fee_per_gas" => Put::put(own.base_fee_per_gas_mut(), new), "block_hash" => Put::put(own.block_hash_mut(), new), "transactions" => Put::put(own.transactions_mut(), new), "withdrawals" => Put::put(own.withdrawals_mut(), new), "blob_gas_used" => Put::put(own.blob_gas_used_mut(), new), "excess_blob_gas" => Put::put(own.excess_blob_gas_mut(), new), _ => panic!("{field}") };
            r.writes.push(("value", there, bytes(&own)));
            let mut own = types::minimal::ExecutionPayload::Bellatrix(x.clone());
            r.conversions.extend(own.bellatrix_mut().map(|y| ("value to write", "bellatrix", bytes(y))));
            if own.capella_mut().is_some() { r.conversions.push(("value to write", "capella", vec![])); }
            if own.deneb_mut().is_some() { r.conversions.push(("value to write", "deneb", vec![])); }
            let shared = types::ExecutionPayloadRef::<{ ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BYTES_PER_TRANSACTION }, { ec::deneb::minimal::MAX_TRANSACTIONS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_WITHDRAWALS_PER_PAYLOAD }>::from(&x);
            r.version.push(("shared", format!("{:?}", shared.version())));
            r.root.push(("shared", root(&shared)));
            r.reads.push(("shared", "parent_hash", Show::show(shared.parent_hash()))); r.reads.push(("shared", "fee_recipient", Show::show(shared.fee_recipient()))); r.reads.push(("shared", "state_root", Show::show(shared.state_root()))); r.reads.push(("shared", "receipts_root", Show::show(shared.receipts_root()))); r.reads.push(("shared", "logs_bloom", Show::show(shared.logs_bloom()))); r.reads.push(("shared", "prev_randao", Show::show(shared.prev_randao()))); r.reads.push(("shared", "block_number", Show::show(shared.block_number()))); r.reads.push(("shared", "gas_limit", Show::show(shared.gas_limit()))); r.reads.push(("shared", "gas_used", Show::show(shared.gas_used()))); r.reads.push(("shared", "timestamp", Show::show(shared.timestamp()))); r.reads.push(("shared", "extra_data", Show::show(shared.extra_data()))); r.reads.push(("shared", "base_fee_per_gas", Show::show(shared.base_fee_per_gas()))); r.reads.push(("shared", "block_hash", Show::show(shared.block_hash()))); r.reads.push(("shared", "transactions", Show::show(shared.transactions()))); r.reads.push(("shared", "withdrawals", Show::show(shared.withdrawals()))); r.reads.push(("shared", "blob_gas_used", Show::show(shared.blob_gas_used()))); r.reads.push(("shared", "excess_blob_gas", Show::show(shared.excess_blob_gas())));
            if let Some(y) = shared.bellatrix() { r.conversions.push(("shared", "bellatrix", bytes(y))); } if let Some(y) = shared.capella() { r.conversions.push(("shared", "capella", bytes(y))); } if let Some(y) = shared.deneb() { r.conversions.push(("shared", "deneb", bytes(y))); }
            let mut y = x.clone();
            let mut excl = types::ExecutionPayloadRefMut::<{ ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BYTES_PER_TRANSACTION }, { ec::deneb::minimal::MAX_TRANSACTIONS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_WITHDRAWALS_PER_PAYLOAD }>::from(&mut y);
            r.version.push(("exclusive", format!("{:?}", excl.version())));
            r.root.push(("exclusive", root(&excl)));
            r.reads.push(("exclusive", "parent_hash", Show::show(excl.parent_hash()))); r.reads.push(("exclusive", "fee_recipient", Show::show(excl.fee_recipient()))); r.reads.push(("exclusive", "state_root", Show::show(excl.state_root()))); r.reads.push(("exclusive", "receipts_root", Show::show(excl.receipts_root()))); r.reads.push(("exclusive", "logs_bloom", Show::show(excl.logs_bloom()))); r.reads.push(("exclusive", "prev_randao", Show::show(excl.prev_randao()))); r.reads.push(("exclusive", "block_number", Show::show(excl.block_number()))); r.reads.push(("exclusive", "gas_limit", Show::show(excl.gas_limit()))); r.reads.push(("exclusive", "gas_used", Show::show(excl.gas_used()))); r.reads.push(("exclusive", "timestamp", Show::show(excl.timestamp()))); r.reads.push(("exclusive", "extra_data", Show::show(excl.extra_data()))); r.reads.push(("exclusive", "base_fee_per_gas", Show::show(excl.base_fee_per_gas()))); r.reads.push(("exclusive", "block_hash", Show::show(excl.block_hash()))); r.reads.push(("exclusive", "transactions", Show::show(excl.transactions()))); r.reads.push(("exclusive", "withdrawals", Show::show(excl.withdrawals()))); r.reads.push(("exclusive", "blob_gas_used", Show::show(excl.blob_gas_used()))); r.reads.push(("exclusive", "excess_blob_gas", Show::show(excl.excess_blob_gas())));
            if let Some(y) = excl.bellatrix() { r.conversions.push(("exclusive", "bellatrix", bytes(y))); } if let Some(y) = excl.capella() { r.conversions.push(("exclusive", "capella", bytes(y))); } if let Some(y) = excl.deneb() { r.conversions.push(("exclusive", "deneb", bytes(y))); }
            let there = match field { "parent_hash" => Put::put(excl.parent_hash_mut(), new), "fee_recipient" => Put::put(excl.fee_recipient_mut(), new), "state_root" => Put::put(excl.state_root_mut(), new), "receipts_root" => Put::put(excl.receipts_root_mut(), new), "logs_bloom" => Put::put(excl.logs_bloom_mut(), new), "prev_randao" => Put::put(excl.prev_randao_mut(), new), "block_number" => Put::put(excl.block_number_mut(), new), "gas_limit" => Put::put(excl.gas_limit_mut(), new), "gas_used" => Put::put(excl.gas_used_mut(), new), "timestamp" => Put::put(excl.timestamp_mut(), new), "extra_data" => Put::put(excl.extra_data_mut(), new), "base_fee_per_gas" => Put::put(excl.base_fee_per_gas_mut(), new), "block_hash" => Put::put(excl.block_hash_mut(), new), "transactions" => Put::put(excl.transactions_mut(), new), "withdrawals" => Put::put(excl.withdrawals_mut(), new), "blob_gas_used" => Put::put(excl.blob_gas_used_mut(), new), "excess_blob_gas" => Put::put(excl.excess_blob_gas_mut(), new), _ => panic!("{field}") };
            r.writes.push(("exclusive", there, bytes(&y)));
        }
        Fork::Capella => {
            let x = ec::capella::minimal::ExecutionPayload::deserialize(b).map_err(|e| format!("{e:?}"))?;
            let mut own = types::minimal::ExecutionPayload::Capella(x.clone());
            r.version.push(("value", format!("{:?}", own.version())));
            r.root.push(("value", root(&own)));
            r.reads.push(("value", "parent_hash", Show::show(own.parent_hash()))); r.reads.push(("value", "fee_recipient", Show::show(own.fee_recipient()))); r.reads.push(("value", "state_root", Show::show(own.state_root()))); r.reads.push(("value", "receipts_root", Show::show(own.receipts_root()))); r.reads.push(("value", "logs_bloom", Show::show(own.logs_bloom()))); r.reads.push(("value", "prev_randao", Show::show(own.prev_randao()))); r.reads.push(("value", "block_number", Show::show(own.block_number()))); r.reads.push(("value", "gas_limit", Show::show(own.gas_limit()))); r.reads.push(("value", "gas_used", Show::show(own.gas_used()))); r.reads.push(("value", "timestamp", Show::show(own.timestamp()))); r.reads.push(("value", "extra_data", Show::show(own.extra_data()))); r.reads.push(("value", "base_fee_per_gas", Show::show(own.base_fee_per_gas()))); r.reads.push(("value", "block_hash", Show::show(own.block_hash()))); r.reads.push(("value", "transactions", Show::show(own.transactions()))); r.reads.push(("value", "withdrawals", Show::show(own.withdrawals()))); r.reads.push(("value", "blob_gas_used", Show::show(own.blob_gas_used()))); r.reads.push(("value", "excess_blob_gas", Show::show(own.excess_blob_gas())));
            if let Some(y) = own.bellatrix() { r.conversions.push(("value", "bellatrix", bytes(y))); } if let Some(y) = own.capella() { r.conversions.push(("value", "capella", bytes(y))); } if let Some(y) = own.deneb() { r.conversions.push(("value", "deneb", bytes(y))); }
            r.ssz = bytes(&own);
            r.json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
            let tree: serde_json::Value = serde_json::from_str(&r.json).map_err(|e| e.to_string())?;
            for back in [serde_json::from_str::<types::minimal::ExecutionPayload>(&r.json), serde_json::from_value(tree)] {
                r.back.push(back.map(|x| (format!("{:?}", x.version()), bytes(&x))).map_err(|e| e.to_string()));
            }
            let there = match field { "parent_hash" => Put::put(own.parent_hash_mut(), new), "fee_recipient" => Put::put(own.fee_recipient_mut(), new), "state_root" => Put::put(own.state_root_mut(), new), "receipts_root" => Put::put(own.receipts_root_mut(), new), "logs_bloom" => Put::put(own.logs_bloom_mut(), new), "prev_randao" => Put::put(own.prev_randao_mut(), new), "block_number" => Put::put(own.block_number_mut(), new), "gas_limit" => Put::put(own.gas_limit_mut(), new), "gas_used" => Put::put(own.gas_used_mut(), new), "timestamp" => Put::put(own.timestamp_mut(), new), "extra_data" => Put::put(own.extra_data_mut(), new), "base_fee_per_gas" => Put::put(own.base_fee_per_gas_mut(), new), "block_hash" => Put::put(own.block_hash_mut(), new), "transactions" => Put::put(own.transactions_mut(), new), "withdrawals" => Put::put(own.withdrawals_mut(), new), "blob_gas_used" => Put::put(own.blob_gas_used_mut(), new), "excess_blob_gas" => Put::put(own.excess_blob_gas_mut(), new), _ => panic!("{field}") };
            r.writes.push(("value", there, bytes(&own)));
            let mut own = types::minimal::ExecutionPayload::Capella(x.clone());
            r.conversions.extend(own.capella_mut().map(|y| ("value to write", "capella", bytes(y))));
            if own.bellatrix_mut().is_some() { r.conversions.push(("value to write", "bellatrix", vec![])); }
            if own.deneb_mut().is_some() { r.conversions.push(("value to write", "deneb", vec![])); }
            let shared = types::ExecutionPayloadRef::<{ ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BYTES_PER_TRANSACTION }, { ec::deneb::minimal::MAX_TRANSACTIONS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_WITHDRAWALS_PER_PAYLOAD }>::from(&x);
            r.version.push(("shared", format!("{:?}", shared.version())));
            r.root.push(("shared", root(&shared)));
            r.reads.push(("shared", "parent_hash", Show::show(shared.parent_hash()))); r.reads.push(("shared", "fee_recipient", Show::show(shared.fee_recipient()))); r.reads.push(("shared", "state_root", Show::show(shared.state_root()))); r.reads.push(("shared", "receipts_root", Show::show(shared.receipts_root()))); r.reads.push(("shared", "logs_bloom", Show::show(shared.logs_bloom()))); r.reads.push(("shared", "prev_randao", Show::show(shared.prev_randao()))); r.reads.push(("shared", "block_number", Show::show(shared.block_number()))); r.reads.push(("shared", "gas_limit", Show::show(shared.gas_limit()))); r.reads.push(("shared", "gas_used", Show::show(shared.gas_used()))); r.reads.push(("shared", "timestamp", Show::show(shared.timestamp()))); r.reads.push(("shared", "extra_data", Show::show(shared.extra_data()))); r.reads.push(("shared", "base_fee_per_gas", Show::show(shared.base_fee_per_gas()))); r.reads.push(("shared", "block_hash", Show::show(shared.block_hash()))); r.reads.push(("shared", "transactions", Show::show(shared.transactions()))); r.reads.push(("shared", "withdrawals", Show::show(shared.withdrawals()))); r.reads.push(("shared", "blob_gas_used", Show::show(shared.blob_gas_used()))); r.reads.push(("shared", "excess_blob_gas", Show::show(shared.excess_blob_gas())));
            if let Some(y) = shared.bellatrix() { r.conversions.push(("shared", "bellatrix", bytes(y))); } if let Some(y) = shared.capella() { r.conversions.push(("shared", "capella", bytes(y))); } if let Some(y) = shared.deneb() { r.conversions.push(("shared", "deneb", bytes(y))); }
            let mut y = x.clone();
            let mut excl = types::ExecutionPayloadRefMut::<{ ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BYTES_PER_TRANSACTION }, { ec::deneb::minimal::MAX_TRANSACTIONS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_WITHDRAWALS_PER_PAYLOAD }>::from(&mut y);
            r.version.push(("exclusive", format!("{:?}", excl.version())));
            r.root.push(("exclusive", root(&excl)));
            r.reads.push(("exclusive", "parent_hash", Show::show(excl.parent_hash()))); r.reads.push(("exclusive", "fee_recipient", Show::show(excl.fee_recipient()))); r.reads.push(("exclusive", "state_root", Show::show(excl.state_root()))); r.reads.push(("exclusive", "receipts_root", Show::show(excl.receipts_root()))); r.reads.push(("exclusive", "logs_bloom", Show::show(excl.logs_bloom()))); r.reads.push(("exclusive", "prev_randao", Show::show(excl.prev_randao()))); r.reads.push(("exclusive", "block_number", Show::show(excl.block_number()))); r.reads.push(("exclusive", "gas_limit", Show::show(excl.gas_limit()))); r.reads.push(("exclusive", "gas_used", Show::show(excl.gas_used()))); r.reads.push(("exclusive", "timestamp", Show::show(excl.timestamp()))); r.reads.push(("exclusive", "extra_data", Show::show(excl.extra_data()))); r.reads.push(("exclusive", "base_fee_per_gas", Show::show(excl.base_fee_per_gas()))); r.reads.push(("exclusive", "block_hash", Show::show(excl.block_hash()))); r.reads.push(("exclusive", "transactions", Show::show(excl.transactions()))); r.reads.push(("exclusive", "withdrawals", Show::show(excl.withdrawals()))); r.reads.push(("exclusive", "blob_gas_used", Show::show(excl.blob_gas_used()))); r.reads.push(("exclusive", "excess_blob_gas", Show::show(excl.excess_blob_gas())));
            if let Some(y) = excl.bellatrix() { r.conversions.push(("exclusive", "bellatrix", bytes(y))); } if let Some(y) = excl.capella() { r.conversions.push(("exclusive", "capella", bytes(y))); } if let Some(y) = excl.deneb() { r.conversions.push(("exclusive", "deneb", bytes(y))); }
            let there = match field { "parent_hash" => Put::put(excl.parent_hash_mut(), new), "fee_recipient" => Put::put(excl.fee_recipient_mut(), new), "state_root" => Put::put(excl.state_root_mut(), new), "receipts_root" => Put::put(excl.receipts_root_mut(), new), "logs_bloom" => Put::put(excl.logs_bloom_mut(), new), "prev_randao" => Put::put(excl.prev_randao_mut(), new), "block_number" => Put::put(excl.block_number_mut(), new), "gas_limit" => Put::put(excl.gas_limit_mut(), new), "gas_used" => Put::put(excl.gas_used_mut(), new), "timestamp" => Put::put(excl.timestamp_mut(), new), "extra_data" => Put::put(excl.extra_data_mut(), new), "base_fee_per_gas" => Put::put(excl.base_fee_per_gas_mut(), new), "block_hash" => Put::put(excl.block_hash_mut(), new), "transactions" => Put::put(excl.transactions_mut(), new), "withdrawals" => Put::put(excl.withdrawals_mut(), new), "blob_gas_used" => Put::put(excl.blob_gas_used_mut(), new), "excess_blob_gas" => Put::put(excl.excess_blob_gas_mut(), new), _ => panic!("{field}") };
            r.writes.push(("exclusive", there, bytes(&y)));
        }
        Fork::Deneb => {
            let x = ec::deneb::minimal::ExecutionPayload::deserialize(b).map_err(|e| format!("{e:?}"))?;
            let mut own = types::minimal::ExecutionPayload::Deneb(x.clone());
            r.version.push(("value", format!("{:?}", own.version())));
            r.root.push(("value", root(&own)));
            r.reads.push(("value", "parent_hash", Show::show(own.parent_hash()))); r.reads.push(("value", "fee_recipient", Show::show(own.fee_recipient()))); r.reads.push(("value", "state_root", Show::show(own.state_root()))); r.reads.push(("value", "receipts_root", Show::show(own.receipts_root()))); r.reads.push(("value", "logs_bloom", Show::show(own.logs_bloom()))); r.reads.push(("value", "prev_randao", Show::show(own.prev_randao()))); r.reads.push(("value", "block_number", Show::show(own.block_number()))); r.reads.push(("value", "gas_limit", Show::show(own.gas_limit()))); r.reads.push(("value", "gas_used", Show::show(own.gas_used()))); r.reads.push(("value", "timestamp", Show::show(own.timestamp()))); r.reads.push(("value", "extra_data", Show::show(own.extra_data()))); r.reads.push(("value", "base_fee_per_gas", Show::show(own.base_fee_per_gas()))); r.reads.push(("value", "block_hash", Show::show(own.block_hash()))); r.reads.push(("value", "transactions", Show::show(own.transactions()))); r.reads.push(("value", "withdrawals", Show::show(own.withdrawals()))); r.reads.push(("value", "blob_gas_used", Show::show(own.blob_gas_used()))); r.reads.push(("value", "excess_blob_gas", Show::show(own.excess_blob_gas())));
            if let Some(y) = own.bellatrix() { r.conversions.push(("value", "bellatrix", bytes(y))); } if let Some(y) = own.capella() { r.conversions.push(("value", "capella", bytes(y))); } if let Some(y) = own.deneb() { r.conversions.push(("value", "deneb", bytes(y))); }
            r.ssz = bytes(&own);
            r.json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
            let tree: serde_json::Value = serde_json::from_str(&r.json).map_err(|e| e.to_string())?;
            for back in [serde_json::from_str::<types::minimal::ExecutionPayload>(&r.json), serde_json::from_value(tree)] {
                r.back.push(back.map(|x| (format!("{:?}", x.version()), bytes(&x))).map_err(|e| e.to_string()));
            }
            let there = match field { "parent_hash" => Put::put(own.parent_hash_mut(), new), "fee_recipient" => Put::put(own.fee_recipient_mut(), new), "state_root" => Put::put(own.state_root_mut(), new), "receipts_root" => Put::put(own.receipts_root_mut(), new), "logs_bloom" => Put::put(own.logs_bloom_mut(), new), "prev_randao" => Put::put(own.prev_randao_mut(), new), "block_number" => Put::put(own.block_number_mut(), new), "gas_limit" => Put::put(own.gas_limit_mut(), new), "gas_used" => Put::put(own.gas_used_mut(), new), "timestamp" => Put::put(own.timestamp_mut(), new), "extra_data" => Put::put(own.extra_data_mut(), new), "base_fee_per_gas" => Put::put(own.base_fee_per_gas_mut(), new), "block_hash" => Put::put(own.block_hash_mut(), new), "transactions" => Put::put(own.transactions_mut(), new), "withdrawals" => Put::put(own.withdrawals_mut(), new), "blob_gas_used" => Put::put(own.blob_gas_used_mut(), new), "excess_blob_gas" => Put::put(own.excess_blob_gas_mut(), new), _ => panic!("{field}") };
            r.writes.push(("value", there, bytes(&own)));
            let mut own = types::minimal::ExecutionPayload::Deneb(x.clone());
            r.conversions.extend(own.deneb_mut().map(|y| ("value to write", "deneb", bytes(y))));
            if own.bellatrix_mut().is_some() { r.conversions.push(("value to write", "bellatrix", vec![])); }
            if own.capella_mut().is_some() { r.conversions.push(("value to write", "capella", vec![])); }
            let shared = types::ExecutionPayloadRef::<{ ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BYTES_PER_TRANSACTION }, { ec::deneb::minimal::MAX_TRANSACTIONS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_WITHDRAWALS_PER_PAYLOAD }>::from(&x);
            r.version.push(("shared", format!("{:?}", shared.version())));
            r.root.push(("shared", root(&shared)));
            r.reads.push(("shared", "parent_hash", Show::show(shared.parent_hash()))); r.reads.push(("shared", "fee_recipient", Show::show(shared.fee_recipient()))); r.reads.push(("shared", "state_root", Show::show(shared.state_root()))); r.reads.push(("shared", "receipts_root", Show::show(shared.receipts_root()))); r.reads.push(("shared", "logs_bloom", Show::show(shared.logs_bloom()))); r.reads.push(("shared", "prev_randao", Show::show(shared.prev_randao()))); r.reads.push(("shared", "block_number", Show::show(shared.block_number()))); r.reads.push(("shared", "gas_limit", Show::show(shared.gas_limit()))); r.reads.push(("shared", "gas_used", Show::show(shared.gas_used()))); r.reads.push(("shared", "timestamp", Show::show(shared.timestamp()))); r.reads.push(("shared", "extra_data", Show::show(shared.extra_data()))); r.reads.push(("shared", "base_fee_per_gas", Show::show(shared.base_fee_per_gas()))); r.reads.push(("shared", "block_hash", Show::show(shared.block_hash()))); r.reads.push(("shared", "transactions", Show::show(shared.transactions()))); r.reads.push(("shared", "withdrawals", Show::show(shared.withdrawals()))); r.reads.push(("shared", "blob_gas_used", Show::show(shared.blob_gas_used()))); r.reads.push(("shared", "excess_blob_gas", Show::show(shared.excess_blob_gas())));
            if let Some(y) = shared.bellatrix() { r.conversions.push(("shared", "bellatrix", bytes(y))); } if let Some(y) = shared.capella() { r.conversions.push(("shared", "capella", bytes(y))); } if let Some(y) = shared.deneb() { r.conversions.push(("shared", "deneb", bytes(y))); }
            let mut y = x.clone();
            let mut excl = types::ExecutionPayloadRefMut::<{ ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }, { ec::deneb::minimal::MAX_BYTES_PER_TRANSACTION }, { ec::deneb::minimal::MAX_TRANSACTIONS_PER_PAYLOAD }, { ec::deneb::minimal::MAX_WITHDRAWALS_PER_PAYLOAD }>::from(&mut y);
            r.version.push(("exclusive", format!("{:?}", excl.version())));
            r.root.push(("exclusive", root(&excl)));
            r.reads.push(("exclusive", "parent_hash", Show::show(excl.parent_hash()))); r.reads.push(("exclusive", "fee_recipient", Show::show(excl.fee_recipient()))); r.reads.push(("exclusive", "state_root", Show::show(excl.state_root()))); r.reads.push(("exclusive", "receipts_root", Show::show(excl.receipts_root()))); r.reads.push(("exclusive", "logs_bloom", Show::show(excl.logs_bloom()))); r.reads.push(("exclusive", "prev_randao", Show::show(excl.prev_randao()))); r.reads.push(("exclusive", "block_number", Show::show(excl.block_number()))); r.reads.push(("exclusive", "gas_limit", Show::show(excl.gas_limit()))); r.reads.push(("exclusive", "gas_used", Show::show(excl.gas_used()))); r.reads.push(("exclusive", "timestamp", Show::show(excl.timestamp()))); r.reads.push(("exclusive", "extra_data", Show::show(excl.extra_data()))); r.reads.push(("exclusive", "base_fee_per_gas", Show::show(excl.base_fee_per_gas()))); r.reads.push(("exclusive", "block_hash", Show::show(excl.block_hash()))); r.reads.push(("exclusive", "transactions", Show::show(excl.transactions()))); r.reads.push(("exclusive", "withdrawals", Show::show(excl.withdrawals()))); r.reads.push(("exclusive", "blob_gas_used", Show::show(excl.blob_gas_used()))); r.reads.push(("exclusive", "excess_blob_gas", Show::show(excl.excess_blob_gas())));
            if let Some(y) = excl.bellatrix() { r.conversions.push(("exclusive", "bellatrix", bytes(y))); } if let Some(y) = excl.capella() { r.conversions.push(("exclusive", "capella", bytes(y))); } if let Some(y) = excl.deneb() { r.conversions.push(("exclusive", "deneb", bytes(y))); }
            let there = match field { "parent_hash" => Put::put(excl.parent_hash_mut(), new), "fee_recipient" => Put::put(excl.fee_recipient_mut(), new), "state_root" => Put::put(excl.state_root_mut(), new), "receipts_root" => Put::put(excl.receipts_root_mut(), new), "logs_bloom" => Put::put(excl.logs_bloom_mut(), new), "prev_randao" => Put::put(excl.prev_randao_mut(), new), "block_number" => Put::put(excl.block_number_mut(), new), "gas_limit" => Put::put(excl.gas_limit_mut(), new), "gas_used" => Put::put(excl.gas_used_mut(), new), "timestamp" => Put::put(excl.timestamp_mut(), new), "extra_data" => Put::put(excl.extra_data_mut(), new), "base_fee_per_gas" => Put::put(excl.base_fee_per_gas_mut(), new), "block_hash" => Put::put(excl.block_hash_mut(), new), "transactions" => Put::put(excl.transactions_mut(), new), "withdrawals" => Put::put(excl.withdrawals_mut(), new), "blob_gas_used" => Put::put(excl.blob_gas_used_mut(), new), "excess_blob_gas" => Put::put(excl.excess_blob_gas_mut(), new), _ => panic!("{field}") };
            r.writes.push(("exclusive", there, bytes(&y)));
        }
        _ => panic!("no such variant"),
        }
        Ok(r)
    })
}
fn execution_payload_large(f: Fork, b: &[u8]) -> Got<(String, Vec<u8>, H, String, (String, Vec<u8>))> {
    use ssz_rs::Deserialize;
    settle(|| {
        let own = match f {
            Fork::Bellatrix => types::mainnet::ExecutionPayload::Bellatrix(ec::bellatrix::mainnet::ExecutionPayload::deserialize(b).map_err(|e| format!("{e:?}"))?),
            Fork::Capella => types::mainnet::ExecutionPayload::Capella(ec::capella::mainnet::ExecutionPayload::deserialize(b).map_err(|e| format!("{e:?}"))?),
            Fork::Deneb => types::mainnet::ExecutionPayload::Deneb(ec::deneb::mainnet::ExecutionPayload::deserialize(b).map_err(|e| format!("{e:?}"))?),
            _ => panic!("no such variant"),
        };
        let json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
        let back: types::mainnet::ExecutionPayload = serde_json::from_str(&json).map_err(|e| e.to_string())?;
        Ok((format!("{:?}", own.version()), bytes(&own), root(&own), json, (format!("{:?}", back.version()), bytes(&back))))
    })
}
fn execution_payload_header(f: Fork, b: &[u8], field: &str, new: &[u8]) -> Got<Report> {
    use ssz_rs::Deserialize;
    settle(|| {
        let mut r = Report::default();
        match f {
        Fork::Bellatrix => {
            let x = ec::bellatrix::minimal::ExecutionPayloadHeader::deserialize(b).map_err(|e| format!("{e:?}"))?;
            let mut own = types::minimal::ExecutionPayloadHeader::Bellatrix(x.clone());
            r.version.push(("value", format!("{:?}", own.version())));
            r.root.push(("value", root(&own)));
            r.reads.push(("value", "parent_hash", Show::show(own.parent_hash()))); r.reads.push(("value", "fee_recipient", Show::show(own.fee_recipient()))); r.reads.push(("value", "state_root", Show::show(own.state_root()))); r.reads.push(("value", "receipts_root", Show::show(own.receipts_root()))); r.reads.push(("value", "logs_bloom", Show::show(own.logs_bloom()))); r.reads.push(("value", "prev_randao", Show::show(own.prev_randao()))); r.reads.push(("value", "block_number", Show::show(own.block_number()))); r.reads.push(("value", "gas_limit", Show::show(own.gas_limit()))); r.reads.push(("value", "gas_used", Show::show(own.gas_used()))); r.reads.push(("value", "timestamp", Show::show(own.timestamp()))); r.reads.push(("value", "extra_data", Show::show(own.extra_data()))); r.reads.push(("value", "base_fee_per_gas", Show::show(own.base_fee_per_gas()))); r.reads.push(("value", "block_hash", Show::show(own.block_hash()))); r.reads.push(("value", "transactions_root", Show::show(own.transactions_root()))); r.reads.push(("value", "withdrawals_root", Show::show(own.withdrawals_root()))); r.reads.push(("value", "blob_gas_used", Show::show(own.blob_gas_used()))); r.reads.push(("value", "excess_blob_gas", Show::show(own.excess_blob_gas())));
            if let Some(y) = own.bellatrix() { r.conversions.push(("value", "bellatrix", bytes(y))); } if let Some(y) = own.capella() { r.conversions.push(("value", "capella", bytes(y))); } if let Some(y) = own.deneb() { r.conversions.push(("value", "deneb", bytes(y))); }
            r.ssz = bytes(&own);
            r.json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
            let tree: serde_json::Value = serde_json::from_str(&r.json).map_err(|e| e.to_string())?;
            for back in [serde_json::from_str::<types::minimal::ExecutionPayloadHeader>(&r.json), serde_json::from_value(tree)] {
                r.back.push(back.map(|x| (format!("{:?}", x.version()), bytes(&x))).map_err(|e| e.to_string()));
            }
            let there = match field { "parent_hash" => Put::put(own.parent_hash_mut(), new), "fee_recipient" => Put::put(own.fee_recipient_mut(), new), "state_root" => Put::put(own.state_root_mut(), new), "receipts_root" => Put::put(own.receipts_root_mut(), new), "logs_bloom" => Put::put(own.logs_bloom_mut(), new), "prev_randao" => Put::put(own.prev_randao_mut(), new), "block_number" => Put::put(own.block_number_mut(), new), "gas_limit" => Put::put(own.gas_limit_mut(), new), "gas_used" => Put::put(own.gas_used_mut(), new), "timestamp" => Put::put(own.timestamp_mut(), new), "extra_data" => Put::put(own.extra_data_mut(), new), "base_fee_per_gas" => Put::put(own.base_fee_per_gas_mut(), new), "block_hash" => Put::put(own.block_hash_mut(), new), "transactions_root" => Put::put(own.transactions_root_mut(), new), "withdrawals_root" => Put::put(own.withdrawals_root_mut(), new), "blob_gas_used" => Put::put(own.blob_gas_used_mut(), new), "excess_blob_gas" => Put::put(own.excess_blob_gas_mut(), new), _ => panic!("{field}") };
            r.writes.push(("value", there, bytes(&own)));
            let mut own = types::minimal::ExecutionPayloadHeader::Bellatrix(x.clone());
            r.conversions.extend(own.bellatrix_mut().map(|y| ("value to write", "bellatrix", bytes(y))));
            if own.capella_mut().is_some() { r.conversions.push(("value to write", "capella", vec![])); }
            if own.deneb_mut().is_some() { r.conversions.push(("value to write", "deneb", vec![])); }
            let shared = types::ExecutionPayloadHeaderRef::<{ ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }>::from(&x);
            r.version.push(("shared", format!("{:?}", shared.version())));
            r.root.push(("shared", root(&shared)));
            r.reads.push(("shared", "parent_hash", Show::show(shared.parent_hash()))); r.reads.push(("shared", "fee_recipient", Show::show(shared.fee_recipient()))); r.reads.push(("shared", "state_root", Show::show(shared.state_root()))); r.reads.push(("shared", "receipts_root", Show::show(shared.receipts_root()))); r.reads.push(("shared", "logs_bloom", Show::show(shared.logs_bloom()))); r.reads.push(("shared", "prev_randao", Show::show(shared.prev_randao()))); r.reads.push(("shared", "block_number", Show::show(shared.block_number()))); r.reads.push(("shared", "gas_limit", Show::show(shared.gas_limit()))); r.reads.push(("shared", "gas_used", Show::show(shared.gas_used()))); r.reads.push(("shared", "timestamp", Show::show(shared.timestamp()))); r.reads.push(("shared", "extra_data", Show::show(shared.extra_data()))); r.reads.push(("shared", "base_fee_per_gas", Show::show(shared.base_fee_per_gas()))); r.reads.push(("shared", "block_hash", Show::show(shared.block_hash()))); r.reads.push(("shared", "transactions_root", Show::show(shared.transactions_root()))); r.reads.push(("shared", "withdrawals_root", Show::show(shared.withdrawals_root()))); r.reads.push(("shared", "blob_gas_used", Show::show(shared.blob_gas_used()))); r.reads.push(("shared", "excess_blob_gas", Show::show(shared.excess_blob_gas())));
            if let Some(y) = shared.bellatrix() { r.conversions.push(("shared", "bellatrix", bytes(y))); } if let Some(y) = shared.capella() { r.conversions.push(("shared", "capella", bytes(y))); } if let Some(y) = shared.deneb() { r.conversions.push(("shared", "deneb", bytes(y))); }
            let mut y = x.clone();
            let mut excl = types::ExecutionPayloadHeaderRefMut::<{ ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }>::from(&mut y);
            r.version.push(("exclusive", format!("{:?}", excl.version())));
            r.root.push(("exclusive", root(&excl)));
            r.reads.push(("exclusive", "parent_hash", Show::show(excl.parent_hash()))); r.reads.push(("exclusive", "fee_recipient", Show::show(excl.fee_recipient()))); r.reads.push(("exclusive", "state_root", Show::show(excl.state_root()))); r.reads.push(("exclusive", "receipts_root", Show::show(excl.receipts_root()))); r.reads.push(("exclusive", "logs_bloom", Show::show(excl.logs_bloom()))); r.reads.push(("exclusive", "prev_randao", Show::show(excl.prev_randao()))); r.reads.push(("exclusive", "block_number", Show::show(excl.block_number()))); r.reads.push(("exclusive", "gas_limit", Show::show(excl.gas_limit()))); r.reads.push(("exclusive", "gas_used", Show::show(excl.gas_used()))); r.reads.push(("exclusive", "timestamp", Show::show(excl.timestamp()))); r.reads.push(("exclusive", "extra_data", Show::show(excl.extra_data()))); r.reads.push(("exclusive", "base_fee_per_gas", Show::show(excl.base_fee_per_gas()))); r.reads.push(("exclusive", "block_hash", Show::show(excl.block_hash()))); r.reads.push(("exclusive", "transactions_root", Show::show(excl.transactions_root()))); r.reads.push(("exclusive", "withdrawals_root", Show::show(excl.withdrawals_root()))); r.reads.push(("exclusive", "blob_gas_used", Show::show(excl.blob_gas_used()))); r.reads.push(("exclusive", "excess_blob_gas", Show::show(excl.excess_blob_gas())));
            if let Some(y) = excl.bellatrix() { r.conversions.push(("exclusive", "bellatrix", bytes(y))); } if let Some(y) = excl.capella() { r.conversions.push(("exclusive", "capella", bytes(y))); } if let Some(y) = excl.deneb() { r.conversions.push(("exclusive", "deneb", bytes(y))); }
            let there = match field { "parent_hash" => Put::put(excl.parent_hash_mut(), new), "fee_recipient" => Put::put(excl.fee_recipient_mut(), new), "state_root" => Put::put(excl.state_root_mut(), new), "receipts_root" => Put::put(excl.receipts_root_mut(), new), "logs_bloom" => Put::put(excl.logs_bloom_mut(), new), "prev_randao" => Put::put(excl.prev_randao_mut(), new), "block_number" => Put::put(excl.block_number_mut(), new), "gas_limit" => Put::put(excl.gas_limit_mut(), new), "gas_used" => Put::put(excl.gas_used_mut(), new), "timestamp" => Put::put(excl.timestamp_mut(), new), "extra_data" => Put::put(excl.extra_data_mut(), new), "base_fee_per_gas" => Put::put(excl.base_fee_per_gas_mut(), new), "block_hash" => Put::put(excl.block_hash_mut(), new), "transactions_root" => Put::put(excl.transactions_root_mut(), new), "withdrawals_root" => Put::put(excl.withdrawals_root_mut(), new), "blob_gas_used" => Put::put(excl.blob_gas_used_mut(), new), "excess_blob_gas" => Put::put(excl.excess_blob_gas_mut(), new), _ => panic!("{field}") };
            r.writes.push(("exclusive", there, bytes(&y)));
        }
        Fork::Capella => {
            let x = ec::capella::minimal::ExecutionPayloadHeader::deserialize(b).map_err(|e| format!("{e:?}"))?;
            let mut own = types::minimal::ExecutionPayloadHeader::Capella(x.clone());
            r.version.push(("value", format!("{:?}", own.version())));
            r.root.push(("value", root(&own)));
            r.reads.push(("value", "parent_hash", Show::show(own.parent_hash()))); r.reads.push(("value", "fee_recipient", Show::show(own.fee_recipient()))); r.reads.push(("value", "state_root", Show::show(own.state_root()))); r.reads.push(("value", "receipts_root", Show::show(own.receipts_root()))); r.reads.push(("value", "logs_bloom", Show::show(own.logs_bloom()))); r.reads.push(("value", "prev_randao", Show::show(own.prev_randao()))); r.reads.push(("value", "block_number", Show::show(own.block_number()))); r.reads.push(("value", "gas_limit", Show::show(own.gas_limit()))); r.reads.push(("value", "gas_used", Show::show(own.gas_used()))); r.reads.push(("value", "timestamp", Show::show(own.timestamp()))); r.reads.push(("value", "extra_data", Show::show(own.extra_data()))); r.reads.push(("value", "base_fee_per_gas", Show::show(own.base_fee_per_gas()))); r.reads.push(("value", "block_hash", Show::show(own.block_hash()))); r.reads.push(("value", "transactions_root", Show::show(own.transactions_root()))); r.reads.push(("value", "withdrawals_root", Show::show(own.withdrawals_root()))); r.reads.push(("value", "blob_gas_used", Show::show(own.blob_gas_used()))); r.reads.push(("value", "excess_blob_gas", Show::show(own.excess_blob_gas())));
            if let Some(y) = own.bellatrix() { r.conversions.push(("value", "bellatrix", bytes(y))); } if let Some(y) = own.capella() { r.conversions.push(("value", "capella", bytes(y))); } if let Some(y) = own.deneb() { r.conversions.push(("value", "deneb", bytes(y))); }
            r.ssz = bytes(&own);
            r.json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
            let tree: serde_json::Value = serde_json::from_str(&r.json).map_err(|e| e.to_string())?;
            for back in [serde_json::from_str::<types::minimal::ExecutionPayloadHeader>(&r.json), serde_json::from_value(tree)] {
                r.back.push(back.map(|x| (format!("{:?}", x.version()), bytes(&x))).map_err(|e| e.to_string()));
            }
            let there = match field { "parent_hash" => Put::put(own.parent_hash_mut(), new), "fee_recipient" => Put::put(own.fee_recipient_mut(), new), "state_root" => Put::put(own.state_root_mut(), new), "receipts_root" => Put::put(own.receipts_root_mut(), new), "logs_bloom" => Put::put(own.logs_bloom_mut(), new), "prev_randao" => Put::put(own.prev_randao_mut(), new), "block_number" => Put::put(own.block_number_mut(), new), "gas_limit" => Put::put(own.gas_limit_mut(), new), "gas_used" => Put::put(own.gas_used_mut(), new), "timestamp" => Put::put(own.timestamp_mut(), new), "extra_data" => Put::put(own.extra_data_mut(), new), "base_fee_per_gas" => Put::put(own.base_fee_per_gas_mut(), new), "block_hash" => Put::put(own.block_hash_mut(), new), "transactions_root" => Put::put(own.transactions_root_mut(), new), "withdrawals_root" => Put::put(own.withdrawals_root_mut(), new), "blob_gas_used" => Put::put(own.blob_gas_used_mut(), new), "excess_blob_gas" => Put::put(own.excess_blob_gas_mut(), new), _ => panic!("{field}") };
            r.writes.push(("value", there, bytes(&own)));
            let mut own = types::minimal::ExecutionPayloadHeader::Capella(x.clone());
            r.conversions.extend(own.capella_mut().map(|y| ("value to write", "capella", bytes(y))));
            if own.bellatrix_mut().is_some() { r.conversions.push(("value to write", "bellatrix", vec![])); }
            if own.deneb_mut().is_some() { r.conversions.push(("value to write", "deneb", vec![])); }
            let shared = types::ExecutionPayloadHeaderRef::<{ ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }>::from(&x);
            r.version.push(("shared", format!("{:?}", shared.version())));
            r.root.push(("shared", root(&shared)));
            r.reads.push(("shared", "parent_hash", Show::show(shared.parent_hash()))); r.reads.push(("shared", "fee_recipient", Show::show(shared.fee_recipient()))); r.reads.push(("shared", "state_root", Show::show(shared.state_root()))); r.reads.push(("shared", "receipts_root", Show::show(shared.receipts_root()))); r.reads.push(("shared", "logs_bloom", Show::show(shared.logs_bloom()))); r.reads.push(("shared", "prev_randao", Show::show(shared.prev_randao()))); r.reads.push(("shared", "block_number", Show::show(shared.block_number()))); r.reads.push(("shared", "gas_limit", Show::show(shared.gas_limit()))); r.reads.push(("shared", "gas_used", Show::show(shared.gas_used()))); r.reads.push(("shared", "timestamp", Show::show(shared.timestamp()))); r.reads.push(("shared", "extra_data", Show::show(shared.extra_data()))); r.reads.push(("shared", "base_fee_per_gas", Show::show(shared.base_fee_per_gas()))); r.reads.push(("shared", "block_hash", Show::show(shared.block_hash()))); r.reads.push(("shared", "transactions_root", Show::show(shared.transactions_root()))); r.reads.push(("shared", "withdrawals_root", Show::show(shared.withdrawals_root()))); r.reads.push(("shared", "blob_gas_used", Show::show(shared.blob_gas_used()))); r.reads.push(("shared", "excess_blob_gas", Show::show(shared.excess_blob_gas())));
            if let Some(y) = shared.bellatrix() { r.conversions.push(("shared", "bellatrix", bytes(y))); } if let Some(y) = shared.capella() { r.conversions.push(("shared", "capella", bytes(y))); } if let Some(y) = shared.deneb() { r.conversions.push(("shared", "deneb", bytes(y))); }
            let mut y = x.clone();
            let mut excl = types::ExecutionPayloadHeaderRefMut::<{ ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }>::from(&mut y);
            r.version.push(("exclusive", format!("{:?}", excl.version())));
            r.root.push(("exclusive", root(&excl)));
            r.reads.push(("exclusive", "parent_hash", Show::show(excl.parent_hash()))); r.reads.push(("exclusive", "fee_recipient", Show::show(excl.fee_recipient()))); r.reads.push(("exclusive", "state_root", Show::show(excl.state_root()))); r.reads.push(("exclusive", "receipts_root", Show::show(excl.receipts_root()))); r.reads.push(("exclusive", "logs_bloom", Show::show(excl.logs_bloom()))); r.reads.push(("exclusive", "prev_randao", Show::show(excl.prev_randao()))); r.reads.push(("exclusive", "block_number", Show::show(excl.block_number()))); r.reads.push(("exclusive", "gas_limit", Show::show(excl.gas_limit()))); r.reads.push(("exclusive", "gas_used", Show::show(excl.gas_used()))); r.reads.push(("exclusive", "timestamp", Show::show(excl.timestamp()))); r.reads.push(("exclusive", "extra_data", Show::show(excl.extra_data()))); r.reads.push(("exclusive", "base_fee_per_gas", Show::show(excl.base_fee_per_gas()))); r.reads.push(("exclusive", "block_hash", Show::show(excl.block_hash()))); r.reads.push(("exclusive", "transactions_root", Show::show(excl.transactions_root()))); r.reads.push(("exclusive", "withdrawals_root", Show::show(excl.withdrawals_root()))); r.reads.push(("exclusive", "blob_gas_used", Show::show(excl.blob_gas_used()))); r.reads.push(("exclusive", "excess_blob_gas", Show::show(excl.excess_blob_gas())));
            if let Some(y) = excl.bellatrix() { r.conversions.push(("exclusive", "bellatrix", bytes(y))); } if let Some(y) = excl.capella() { r.conversions.push(("exclusive", "capella", bytes(y))); } if let Some(y) = excl.deneb() { r.conversions.push(("exclusive", "deneb", bytes(y))); }
            let there = match field { "parent_hash" => Put::put(excl.parent_hash_mut(), new), "fee_recipient" => Put::put(excl.fee_recipient_mut(), new), "state_root" => Put::put(excl.state_root_mut(), new), "receipts_root" => Put::put(excl.receipts_root_mut(), new), "logs_bloom" => Put::put(excl.logs_bloom_mut(), new), "prev_randao" => Put::put(excl.prev_randao_mut(), new), "block_number" => Put::put(excl.block_number_mut(), new), "gas_limit" => Put::put(excl.gas_limit_mut(), new), "gas_used" => Put::put(excl.gas_used_mut(), new), "timestamp" => Put::put(excl.timestamp_mut(), new), "extra_data" => Put::put(excl.extra_data_mut(), new), "base_fee_per_gas" => Put::put(excl.base_fee_per_gas_mut(), new), "block_hash" => Put::put(excl.block_hash_mut(), new), "transactions_root" => Put::put(excl.transactions_root_mut(), new), "withdrawals_root" => Put::put(excl.withdrawals_root_mut(), new), "blob_gas_used" => Put::put(excl.blob_gas_used_mut(), new), "excess_blob_gas" => Put::put(excl.excess_blob_gas_mut(), new), _ => panic!("{field}") };
            r.writes.push(("exclusive", there, bytes(&y)));
        }
        Fork::Deneb => {
            let x = ec::deneb::minimal::ExecutionPayloadHeader::deserialize(b).map_err(|e| format!("{e:?}"))?;
            let mut own = types::minimal::ExecutionPayloadHeader::Deneb(x.clone());
            r.version.push(("value", format!("{:?}", own.version())));
            r.root.push(("value", root(&own)));
            r.reads.push(("value", "parent_hash", Show::show(own.parent_hash()))); r.reads.push(("value", "fee_recipient", Show::show(own.fee_recipient()))); r.reads.push(("value", "state_root", Show::show(own.state_root()))); r.reads.push(("value", "receipts_root", Show::show(own.receipts_root()))); r.reads.push(("value", "logs_bloom", Show::show(own.logs_bloom()))); r.reads.push(("value", "prev_randao", Show::show(own.prev_randao()))); r.reads.push(("value", "block_number", Show::show(own.block_number()))); r.reads.push(("value", "gas_limit", Show::show(own.gas_limit()))); r.reads.push(("value", "gas_used", Show::show(own.gas_used()))); r.reads.push(("value", "timestamp", Show::show(own.timestamp()))); r.reads.push(("value", "extra_data", Show::show(own.extra_data()))); r.reads.push(("value", "base_fee_per_gas", Show::show(own.base_fee_per_gas()))); r.reads.push(("value", "block_hash", Show::show(own.block_hash()))); r.reads.push(("value", "transactions_root", Show::show(own.transactions_root()))); r.reads.push(("value", "withdrawals_root", Show::show(own.withdrawals_root()))); r.reads.push(("value", "blob_gas_used", Show::show(own.blob_gas_used()))); r.reads.push(("value", "excess_blob_gas", Show::show(own.excess_blob_gas())));
            if let Some(y) = own.bellatrix() { r.conversions.push(("value", "bellatrix", bytes(y))); } if let Some(y) = own.capella() { r.conversions.push(("value", "capella", bytes(y))); } if let Some(y) = own.deneb() { r.conversions.push(("value", "deneb", bytes(y))); }
            r.ssz = bytes(&own);
            r.json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
            let tree: serde_json::Value = serde_json::from_str(&r.json).map_err(|e| e.to_string())?;
            for back in [serde_json::from_str::<types::minimal::ExecutionPayloadHeader>(&r.json), serde_json::from_value(tree)] {
                r.back.push(back.map(|x| (format!("{:?}", x.version()), bytes(&x))).map_err(|e| e.to_string()));
            }
            let there = match field { "parent_hash" => Put::put(own.parent_hash_mut(), new), "fee_recipient" => Put::put(own.fee_recipient_mut(), new), "state_root" => Put::put(own.state_root_mut(), new), "receipts_root" => Put::put(own.receipts_root_mut(), new), "logs_bloom" => Put::put(own.logs_bloom_mut(), new), "prev_randao" => Put::put(own.prev_randao_mut(), new), "block_number" => Put::put(own.block_number_mut(), new), "gas_limit" => Put::put(own.gas_limit_mut(), new), "gas_used" => Put::put(own.gas_used_mut(), new), "timestamp" => Put::put(own.timestamp_mut(), new), "extra_data" => Put::put(own.extra_data_mut(), new), "base_fee_per_gas" => Put::put(own.base_fee_per_gas_mut(), new), "block_hash" => Put::put(own.block_hash_mut(), new), "transactions_root" => Put::put(own.transactions_root_mut(), new), "withdrawals_root" => Put::put(own.withdrawals_root_mut(), new), "blob_gas_used" => Put::put(own.blob_gas_used_mut(), new), "excess_blob_gas" => Put::put(own.excess_blob_gas_mut(), new), _ => panic!("{field}") };
            r.writes.push(("value", there, bytes(&own)));
            let mut own = types::minimal::ExecutionPayloadHeader::Deneb(x.clone());
            r.conversions.extend(own.deneb_mut().map(|y| ("value to write", "deneb", bytes(y))));
            if own.bellatrix_mut().is_some() { r.conversions.push(("value to write", "bellatrix", vec![])); }
            if own.capella_mut().is_some() { r.conversions.push(("value to write", "capella", vec![])); }
            let shared = types::ExecutionPayloadHeaderRef::<{ ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }>::from(&x);
            r.version.push(("shared", format!("{:?}", shared.version())));
            r.root.push(("shared", root(&shared)));
            r.reads.push(("shared", "parent_hash", Show::show(shared.parent_hash()))); r.reads.push(("shared", "fee_recipient", Show::show(shared.fee_recipient()))); r.reads.push(("shared", "state_root", Show::show(shared.state_root()))); r.reads.push(("shared", "receipts_root", Show::show(shared.receipts_root()))); r.reads.push(("shared", "logs_bloom", Show::show(shared.logs_bloom()))); r.reads.push(("shared", "prev_randao", Show::show(shared.prev_randao()))); r.reads.push(("shared", "block_number", Show::show(shared.block_number()))); r.reads.push(("shared", "gas_limit", Show::show(shared.gas_limit()))); r.reads.push(("shared", "gas_used", Show::show(shared.gas_used()))); r.reads.push(("shared", "timestamp", Show::show(shared.timestamp()))); r.reads.push(("shared", "extra_data", Show::show(shared.extra_data()))); r.reads.push(("shared", "base_fee_per_gas", Show::show(shared.base_fee_per_gas()))); r.reads.push(("shared", "block_hash", Show::show(shared.block_hash()))); r.reads.push(("shared", "transactions_root", Show::show(shared.transactions_root()))); r.reads.push(("shared", "withdrawals_root", Show::show(shared.withdrawals_root()))); r.reads.push(("shared", "blob_gas_used", Show::show(shared.blob_gas_used()))); r.reads.push(("shared", "excess_blob_gas", Show::show(shared.excess_blob_gas())));
            if let Some(y) = shared.bellatrix() { r.conversions.push(("shared", "bellatrix", bytes(y))); } if let Some(y) = shared.capella() { r.conversions.push(("shared", "capella", bytes(y))); } if let Some(y) = shared.deneb() { r.conversions.push(("shared", "deneb", bytes(y))); }
            let mut y = x.clone();
            let mut excl = types::ExecutionPayloadHeaderRefMut::<{ ec::deneb::minimal::BYTES_PER_LOGS_BLOOM }, { ec::deneb::minimal::MAX_EXTRA_DATA_BYTES }>::from(&mut y);
            r.version.push(("exclusive", format!("{:?}", excl.version())));
            r.root.push(("exclusive", root(&excl)));
            r.reads.push(("exclusive", "parent_hash", Show::show(excl.parent_hash()))); r.reads.push(("exclusive", "fee_recipient", Show::show(excl.fee_recipient()))); r.reads.push(("exclusive", "state_root", Show::show(excl.state_root()))); r.reads.push(("exclusive", "receipts_root", Show::show(excl.receipts_root()))); r.reads.push(("exclusive", "logs_bloom", Show::show(excl.logs_bloom()))); r.reads.push(("exclusive", "prev_randao", Show::show(excl.prev_randao()))); r.reads.push(("exclusive", "block_number", Show::show(excl.block_number()))); r.reads.push(("exclusive", "gas_limit", Show::show(excl.gas_limit()))); r.reads.push(("exclusive", "gas_used", Show::show(excl.gas_used()))); r.reads.push(("exclusive", "timestamp", Show::show(excl.timestamp()))); r.reads.push(("exclusive", "extra_data", Show::show(excl.extra_data()))); r.reads.push(("exclusive", "base_fee_per_gas", Show::show(excl.base_fee_per_gas()))); r.reads.push(("exclusive", "block_hash", Show::show(excl.block_hash()))); r.reads.push(("exclusive", "transactions_root", Show::show(excl.transactions_root()))); r.reads.push(("exclusive", "withdrawals_root", Show::show(excl.withdrawals_root()))); r.reads.push(("exclusive", "blob_gas_used", Show::show(excl.blob_gas_used()))); r.reads.push(("exclusive", "excess_blob_gas", Show::show(excl.excess_blob_gas())));
            if let Some(y) = excl.bellatrix() { r.conversions.push(("exclusive", "bellatrix", bytes(y))); } if let Some(y) = excl.capella() { r.conversions.push(("exclusive", "capella", bytes(y))); } if let Some(y) = excl.deneb() { r.conversions.push(("exclusive", "deneb", bytes(y))); }
            let there = match field { "parent_hash" => Put::put(excl.parent_hash_mut(), new), "fee_recipient" => Put::put(excl.fee_recipient_mut(), new), "state_root" => Put::put(excl.state_root_mut(), new), "receipts_root" => Put::put(excl.receipts_root_mut(), new), "logs_bloom" => Put::put(excl.logs_bloom_mut(), new), "prev_randao" => Put::put(excl.prev_randao_mut(), new), "block_number" => Put::put(excl.block_number_mut(), new), "gas_limit" => Put::put(excl.gas_limit_mut(), new), "gas_used" => Put::put(excl.gas_used_mut(), new), "timestamp" => Put::put(excl.timestamp_mut(), new), "extra_data" => Put::put(excl.extra_data_mut(), new), "base_fee_per_gas" => Put::put(excl.base_fee_per_gas_mut(), new), "block_hash" => Put::put(excl.block_hash_mut(), new), "transactions_root" => Put::put(excl.transactions_root_mut(), new), "withdrawals_root" => Put::put(excl.withdrawals_root_mut(), new), "blob_gas_used" => Put::put(excl.blob_gas_used_mut(), new), "excess_blob_gas" => Put::put(excl.excess_blob_gas_mut(), new), _ => panic!("{field}") };
            r.writes.push(("exclusive", there, bytes(&y)));
        }
        _ => panic!("no such variant"),
        }
        Ok(r)
    })
}
fn execution_payload_header_large(f: Fork, b: &[u8]) -> Got<(String, Vec<u8>, H, String, (String, Vec<u8>))> {
    use ssz_rs::Deserialize;
    settle(|| {
        let own = match f {
            Fork::Bellatrix => types::mainnet::ExecutionPayloadHeader::Bellatrix(ec::bellatrix::mainnet::ExecutionPayloadHeader::deserialize(b).map_err(|e| format!("{e:?}"))?),
            Fork::Capella => types::mainnet::ExecutionPayloadHeader::Capella(ec::capella::mainnet::ExecutionPayloadHeader::deserialize(b).map_err(|e| format!("{e:?}"))?),
            Fork::Deneb => types::mainnet::ExecutionPayloadHeader::Deneb(ec::deneb::mainnet::ExecutionPayloadHeader::deserialize(b).map_err(|e| format!("{e:?}"))?),
            _ => panic!("no such variant"),
        };
        let json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
        let back: types::mainnet::ExecutionPayloadHeader = serde_json::from_str(&json).map_err(|e| e.to_string())?;
        Ok((format!("{:?}", own.version()), bytes(&own), root(&own), json, (format!("{:?}", back.version()), bytes(&back))))
    })
}
fn signed_beacon_block(f: Fork, b: &[u8], field: &str, new: &[u8]) -> Got<Report> {
    use ssz_rs::Deserialize;
    settle(|| {
        let mut r = Report::default();
        match f {
        Fork::Phase0 => {
            let x = ec::phase0::minimal::SignedBeaconBlock::deserialize(b).map_err(|e| format!("{e:?}"))?;
            let mut own = types::minimal::SignedBeaconBlock::Phase0(x.clone());
            r.version.push(("value", format!("{:?}", own.version())));
            r.root.push(("value", root(&own)));
            r.reads.push(("value", "message", Show::show(own.message()))); r.reads.push(("value", "signature", Show::show(own.signature())));
            if let Some(y) = own.phase0() { r.conversions.push(("value", "phase0", bytes(y))); } if let Some(y) = own.altair() { r.conversions.push(("value", "altair", bytes(y))); } if let Some(y) = own.bellatrix() { r.conversions.push(("value", "bellatrix", bytes(y))); } if let Some(y) = own.capella() { r.conversions.push(("value", "capella", bytes(y))); } if let Some(y) = own.deneb() { r.conversions.push(("value", "deneb", bytes(y))); }
            r.ssz = bytes(&own);
            r.json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
            let tree: serde_json::Value = serde_json::from_str(&r.json).map_err(|e| e.to_string())?;
            for back in [serde_json::from_str::<types::minimal::SignedBeaconBlock>(&r.json), serde_json::from_value(tree)] {
                r.back.push(back.map(|x| (format!("{:?}", x.version()), bytes(&x))).map_err(|e| e.to_string()));
            }
            let there = match field { "message" => Put::put(own.message_mut(), new), "signature" => Put::put(own.signature_mut(), new), _ => panic!("{field}") };
            r.writes.push(("value", there, bytes(&own)));
            let mut own = types::minimal::SignedBeaconBlock::Phase0(x.clone());
            r.conversions.extend(own.phase0_mut().map(|y| ("value to write", "phase0", bytes(y))));
            if own.altair_mut().is_some() { r.conversions.push(("value to write", "altair", vec![])); }
            if own.bellatrix_mut().is_some() { r.conversions.push(("value to write", "bellatrix", vec![])); }
            if own.capella_mut().is_some() { r.conversions.push(("value to write", "capella", vec![])); }
            if own.deneb_mut().is_some() { r.conversions.push(("value to write", "deneb", vec![])); }
        }
        Fork::Altair => {
            let x = ec::altair::minimal::SignedBeaconBlock::deserialize(b).map_err(|e| format!("{e:?}"))?;
            let mut own = types::minimal::SignedBeaconBlock::Altair(x.clone());
            r.version.push(("value", format!("{:?}", own.version())));
            r.root.push(("value", root(&own)));
            r.reads.push(("value", "message", Show::show(own.message()))); r.reads.push(("value", "signature", Show::show(own.signature())));
            if let Some(y) = own.phase0() { r.conversions.push(("value", "phase0", bytes(y))); } if let Some(y) = own.altair() { r.conversions.push(("value", "altair", bytes(y))); } if let Some(y) = own.bellatrix() { r.conversions.push(("value", "bellatrix", bytes(y))); } if let Some(y) = own.capella() { r.conversions.push(("value", "capella", bytes(y))); } if let Some(y) = own.deneb() { r.conversions.push(("value", "deneb", bytes(y))); }
            r.ssz = bytes(&own);
            r.json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
            let tree: serde_json::Value = serde_json::from_str(&r.json).map_err(|e| e.to_string())?;
            for back in [serde_json::from_str::<types::minimal::SignedBeaconBlock>(&r.json), serde_json::from_value(tree)] {
                r.back.push(back.map(|x| (format!("{:?}", x.version()), bytes(&x))).map_err(|e| e.to_string()));
            }
            let there = match field { "message" => Put::put(own.message_mut(), new), "signature" => Put::put(own.signature_mut(), new), _ => panic!("{field}") };
            r.writes.push(("value", there, bytes(&own)));
            let mut own = types::minimal::SignedBeaconBlock::Altair(x.clone());
            r.conversions.extend(own.altair_mut().map(|y| ("value to write", "altair", bytes(y))));
            if own.phase0_mut().is_some() { r.conversions.push(("value to write", "phase0", vec![])); }
            if own.bellatrix_mut().is_some() { r.conversions.push(("value to write", "bellatrix", vec![])); }
            if own.capella_mut().is_some() { r.conversions.push(("value to write", "capella", vec![])); }
            if own.deneb_mut().is_some() { r.conversions.push(("value to write", "deneb", vec![])); }
        }
        Fork::Bellatrix => {
            let x = ec::bellatrix::minimal::SignedBeaconBlock::deserialize(b).map_err(|e| format!("{e:?}"))?;
            let mut own = types::minimal::SignedBeaconBlock::Bellatrix(x.clone());
            r.version.push(("value", format!("{:?}", own.version())));
            r.root.push(("value", root(&own)));
            r.reads.push(("value", "message", Show::show(own.message()))); r.reads.push(("value", "signature", Show::show(own.signature())));
            if let Some(y) = own.phase0() { r.conversions.push(("value", "phase0", bytes(y))); } if let Some(y) = own.altair() { r.conversions.push(("value", "altair", bytes(y))); } if let Some(y) = own.bellatrix() { r.conversions.push(("value", "bellatrix", bytes(y))); } if let Some(y) = own.capella() { r.conversions.push(("value", "capella", bytes(y))); } if let Some(y) = own.deneb() { r.conversions.push(("value", "deneb", bytes(y))); }
            r.ssz = bytes(&own);
            r.json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
            let tree: serde_json::Value = serde_json::from_str(&r.json).map_err(|e| e.to_string())?;
            for back in [serde_json::from_str::<types::minimal::SignedBeaconBlock>(&r.json), serde_json::from_value(tree)] {
                r.back.push(back.map(|x| (format!("{:?}", x.version()), bytes(&x))).map_err(|e| e.to_string()));
            }
            let there = match field { "message" => Put::put(own.message_mut(), new), "signature" => Put::put(own.signature_mut(), new), _ => panic!("{field}") };
            r.writes.push(("value", there, bytes(&own)));
            let mut own = types::minimal::SignedBeaconBlock::Bellatrix(x.clone());
            r.conversions.extend(own.bellatrix_mut().map(|y| ("value to write", "bellatrix", bytes(y))));
            if own.phase0_mut().is_some() { r.conversions.push(("value to write", "phase0", vec![])); }
            if own.altair_mut().is_some() { r.conversions.push(("value to write", "altair", vec![])); }
            if own.capella_mut().is_some() { r.conversions.push(("value to write", "capella", vec![])); }
            if own.deneb_mut().is_some() { r.conversions.push(("value to write", "deneb", vec![])); }
        }
        Fork::Capella => {
            let x = ec::capella::minimal::SignedBeaconBlock::deserialize(b).map_err(|e| format!("{e:?}"))?;
            let mut own = types::minimal::SignedBeaconBlock::Capella(x.clone());
            r.version.push(("value", format!("{:?}", own.version())));
            r.root.push(("value", root(&own)));
            r.reads.push(("value", "message", Show::show(own.message()))); r.reads.push(("value", "signature", Show::show(own.signature())));
            if let Some(y) = own.phase0() { r.conversions.push(("value", "phase0", bytes(y))); } if let Some(y) = own.altair() { r.conversions.push(("value", "altair", bytes(y))); } if let Some(y) = own.bellatrix() { r.conversions.push(("value", "bellatrix", bytes(y))); } if let Some(y) = own.capella() { r.conversions.push(("value", "capella", bytes(y))); } if let Some(y) = own.deneb() { r.conversions.push(("value", "deneb", bytes(y))); }
            r.ssz = bytes(&own);
            r.json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
            let tree: serde_json::Value = serde_json::from_str(&r.json).map_err(|e| e.to_string())?;
            for back in [serde_json::from_str::<types::minimal::SignedBeaconBlock>(&r.json), serde_json::from_value(tree)] {
                r.back.push(back.map(|x| (format!("{:?}", x.version()), bytes(&x))).map_err(|e| e.to_string()));
            }
            let there = match field { "message" => Put::put(own.message_mut(), new), "signature" => Put::put(own.signature_mut(), new), _ => panic!("{field}") };
            r.writes.push(("value", there, bytes(&own)));
            let mut own = types::minimal::SignedBeaconBlock::Capella(x.clone());
            r.conversions.extend(own.capella_mut().map(|y| ("value to write", "capella", bytes(y))));
            if own.phase0_mut().is_some() { r.conversions.push(("value to write", "phase0", vec![])); }
            if own.altair_mut().is_some() { r.conversions.push(("value to write", "altair", vec![])); }
            if own.bellatrix_mut().is_some() { r.conversions.push(("value to write", "bellatrix", vec![])); }
            if own.deneb_mut().is_some() { r.conversions.push(("value to write", "deneb", vec![])); }
        }
        Fork::Deneb => {
            let x = ec::deneb::minimal::SignedBeaconBlock::deserialize(b).map_err(|e| format!("{e:?}"))?;
            let mut own = types::minimal::SignedBeaconBlock::Deneb(x.clone());
            r.version.push(("value", format!("{:?}", own.version())));
            r.root.push(("value", root(&own)));
            r.reads.push(("value", "message", Show::show(own.message()))); r.reads.push(("value", "signature", Show::show(own.signature())));
            if let Some(y) = own.phase0() { r.conversions.push(("value", "phase0", bytes(y))); } if let Some(y) = own.altair() { r.conversions.push(("value", "altair", bytes(y))); } if let Some(y) = own.bellatrix() { r.conversions.push(("value", "bellatrix", bytes(y))); } if let Some(y) = own.capella() { r.conversions.push(("value", "capella", bytes(y))); } if let Some(y) = own.deneb() { r.conversions.push(("value", "deneb", bytes(y))); }
            r.ssz = bytes(&own);
            r.json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
            let tree: serde_json::Value = serde_json::from_str(&r.json).map_err(|e| e.to_string())?;
            for back in [serde_json::from_str::<types::minimal::SignedBeaconBlock>(&r.json), serde_json::from_value(tree)] {
                r.back.push(back.map(|x| (format!("{:?}", x.version()), bytes(&x))).map_err(|e| e.to_string()));
            }
            let there = match field { "message" => Put::put(own.message_mut(), new), "signature" => Put::put(own.signature_mut(), new), _ => panic!("{field}") };
            r.writes.push(("value", there, bytes(&own)));
            let mut own = types::minimal::SignedBeaconBlock::Deneb(x.clone());
            r.conversions.extend(own.deneb_mut().map(|y| ("value to write", "deneb", bytes(y))));
            if own.phase0_mut().is_some() { r.conversions.push(("value to write", "phase0", vec![])); }
            if own.altair_mut().is_some() { r.conversions.push(("value to write", "altair", vec![])); }
            if own.bellatrix_mut().is_some() { r.conversions.push(("value to write", "bellatrix", vec![])); }
            if own.capella_mut().is_some() { r.conversions.push(("value to write", "capella", vec![])); }
        }
        _ => panic!("no such variant"),
        }
        Ok(r)
    })
}
fn signed_beacon_block_large(f: Fork, b: &[u8]) -> Got<(String, Vec<u8>, H, String, (String, Vec<u8>))> {
    use ssz_rs::Deserialize;
    settle(|| {
        let own = match f {
            Fork::Phase0 => types::mainnet::SignedBeaconBlock::Phase0(ec::phase0::mainnet::SignedBeaconBlock::deserialize(b).map_err(|e| format!("{e:?}"))?),
            Fork::Altair => types::mainnet::SignedBeaconBlock::Altair(ec::altair::mainnet::SignedBeaconBlock::deserialize(b).map_err(|e| format!("{e:?}"))?),
            Fork::Bellatrix => types::mainnet::SignedBeaconBlock::Bellatrix(ec::bellatrix::mainnet::SignedBeaconBlock::deserialize(b).map_err(|e| format!("{e:?}"))?),
            Fork::Capella => types::mainnet::SignedBeaconBlock::Capella(ec::capella::mainnet::SignedBeaconBlock::deserialize(b).map_err(|e| format!("{e:?}"))?),
            Fork::Deneb => types::mainnet::SignedBeaconBlock::Deneb(ec::deneb::mainnet::SignedBeaconBlock::deserialize(b).map_err(|e| format!("{e:?}"))?),
            _ => panic!("no such variant"),
        };
        let json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
        let back: types::mainnet::SignedBeaconBlock = serde_json::from_str(&json).map_err(|e| e.to_string())?;
        Ok((format!("{:?}", own.version()), bytes(&own), root(&own), json, (format!("{:?}", back.version()), bytes(&back))))
    })
}
fn signed_blinded_beacon_block(f: Fork, b: &[u8], field: &str, new: &[u8]) -> Got<Report> {
    use ssz_rs::Deserialize;
    settle(|| {
        let mut r = Report::default();
        match f {
        Fork::Bellatrix => {
            let x = ec::bellatrix::minimal::SignedBlindedBeaconBlock::deserialize(b).map_err(|e| format!("{e:?}"))?;
            let mut own = types::minimal::SignedBlindedBeaconBlock::Bellatrix(x.clone());
            r.version.push(("value", format!("{:?}", own.version())));
            r.root.push(("value", root(&own)));
            r.reads.push(("value", "message", Show::show(own.message()))); r.reads.push(("value", "signature", Show::show(own.signature())));
            if let Some(y) = own.bellatrix() { r.conversions.push(("value", "bellatrix", bytes(y))); } if let Some(y) = own.capella() { r.conversions.push(("value", "capella", bytes(y))); } if let Some(y) = own.deneb() { r.conversions.push(("value", "deneb", bytes(y))); }
            r.ssz = bytes(&own);
            r.json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
            let tree: serde_json::Value = serde_json::from_str(&r.json).map_err(|e| e.to_string())?;
            for back in [serde_json::from_str::<types::minimal::SignedBlindedBeaconBlock>(&r.json), serde_json::from_value(tree)] {
                r.back.push(back.map(|x| (format!("{:?}", x.version()), bytes(&x))).map_err(|e| e.to_string()));
            }
            let there = match field { "message" => Put::put(own.message_mut(), new), "signature" => Put::put(own.signature_mut(), new), _ => panic!("{field}") };
            r.writes.push(("value", there, bytes(&own)));
            let mut own = types::minimal::SignedBlindedBeaconBlock::Bellatrix(x.clone());
            r.conversions.extend(own.bellatrix_mut().map(|y| ("value to write", "bellatrix", bytes(y))));
            if own.capella_mut().is_some() { r.conversions.push(("value to write", "capella", vec![])); }
            if own.deneb_mut().is_some() { r.conversions.push(("value to write", "deneb", vec![])); }
        }
        Fork::Capella => {
            let x = ec::capella::minimal::SignedBlindedBeaconBlock::deserialize(b).map_err(|e| format!("{e:?}"))?;
            let mut own = types::minimal::SignedBlindedBeaconBlock::Capella(x.clone());
            r.version.push(("value", format!("{:?}", own.version())));
            r.root.push(("value", root(&own)));
            r.reads.push(("value", "message", Show::show(own.message()))); r.reads.push(("value", "signature", Show::show(own.signature())));
            if let Some(y) = own.bellatrix() { r.conversions.push(("value", "bellatrix", bytes(y))); } if let Some(y) = own.capella() { r.conversions.push(("value", "capella", bytes(y))); } if let Some(y) = own.deneb() { r.conversions.push(("value", "deneb", bytes(y))); }
            r.ssz = bytes(&own);
            r.json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
            let tree: serde_json::Value = serde_json::from_str(&r.json).map_err(|e| e.to_string())?;
            for back in [serde_json::from_str::<types::minimal::SignedBlindedBeaconBlock>(&r.json), serde_json::from_value(tree)] {
                r.back.push(back.map(|x| (format!("{:?}", x.version()), bytes(&x))).map_err(|e| e.to_string()));
            }
            let there = match field { "message" => Put::put(own.message_mut(), new), "signature" => Put::put(own.signature_mut(), new), _ => panic!("{field}") };
            r.writes.push(("value", there, bytes(&own)));
            let mut own = types::minimal::SignedBlindedBeaconBlock::Capella(x.clone());
            r.conversions.extend(own.capella_mut().map(|y| ("value to write", "capella", bytes(y))));
            if own.bellatrix_mut().is_some() { r.conversions.push(("value to write", "bellatrix", vec![])); }
            if own.deneb_mut().is_some() { r.conversions.push(("value to write", "deneb", vec![])); }
        }
        Fork::Deneb => {
            let x = ec::deneb::minimal::SignedBlindedBeaconBlock::deserialize(b).map_err(|e| format!("{e:?}"))?;
            let mut own = types::minimal::SignedBlindedBeaconBlock::Deneb(x.clone());
            r.version.push(("value", format!("{:?}", own.version())));
            r.root.push(("value", root(&own)));
            r.reads.push(("value", "message", Show::show(own.message()))); r.reads.push(("value", "signature", Show::show(own.signature())));
            if let Some(y) = own.bellatrix() { r.conversions.push(("value", "bellatrix", bytes(y))); } if let Some(y) = own.capella() { r.conversions.push(("value", "capella", bytes(y))); } if let Some(y) = own.deneb() { r.conversions.push(("value", "deneb", bytes(y))); }
            r.ssz = bytes(&own);
            r.json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
            let tree: serde_json::Value = serde_json::from_str(&r.json).map_err(|e| e.to_string())?;
            for back in [serde_json::from_str::<types::minimal::SignedBlindedBeaconBlock>(&r.json), serde_json::from_value(tree)] {
                r.back.push(back.map(|x| (format!("{:?}", x.version()), bytes(&x))).map_err(|e| e.to_string()));
            }
            let there = match field { "message" => Put::put(own.message_mut(), new), "signature" => Put::put(own.signature_mut(), new), _ => panic!("{field}") };
            r.writes.push(("value", there, bytes(&own)));
            let mut own = types::minimal::SignedBlindedBeaconBlock::Deneb(x.clone());
            r.conversions.extend(own.deneb_mut().map(|y| ("value to write", "deneb", bytes(y))));
            if own.bellatrix_mut().is_some() { r.conversions.push(("value to write", "bellatrix", vec![])); }
            if own.capella_mut().is_some() { r.conversions.push(("value to write", "capella", vec![])); }
        }
        _ => panic!("no such variant"),
        }
        Ok(r)
    })
}
fn signed_blinded_beacon_block_large(f: Fork, b: &[u8]) -> Got<(String, Vec<u8>, H, String, (String, Vec<u8>))> {
    use ssz_rs::Deserialize;
    settle(|| {
        let own = match f {
            Fork::Bellatrix => types::mainnet::SignedBlindedBeaconBlock::Bellatrix(ec::bellatrix::mainnet::SignedBlindedBeaconBlock::deserialize(b).map_err(|e| format!("{e:?}"))?),
            Fork::Capella => types::mainnet::SignedBlindedBeaconBlock::Capella(ec::capella::mainnet::SignedBlindedBeaconBlock::deserialize(b).map_err(|e| format!("{e:?}"))?),
            Fork::Deneb => types::mainnet::SignedBlindedBeaconBlock::Deneb(ec::deneb::mainnet::SignedBlindedBeaconBlock::deserialize(b).map_err(|e| format!("{e:?}"))?),
            _ => panic!("no such variant"),
        };
        let json = serde_json::to_string(&own).map_err(|e| e.to_string())?;
        let back: types::mainnet::SignedBlindedBeaconBlock = serde_json::from_str(&json).map_err(|e| e.to_string())?;
        Ok((format!("{:?}", own.version()), bytes(&own), root(&own), json, (format!("{:?}", back.version()), bytes(&back))))
    })
}
pub const WRAPS: &[Wrap] = &[
    Wrap { name: "BeaconState", from: Fork::Phase0, run: beacon_state, large: beacon_state_large },
    Wrap { name: "BeaconBlock", from: Fork::Phase0, run: beacon_block, large: beacon_block_large },
    Wrap { name: "BeaconBlockBody", from: Fork::Phase0, run: beacon_block_body, large: beacon_block_body_large },
    Wrap { name: "BlindedBeaconBlock", from: Fork::Bellatrix, run: blinded_beacon_block, large: blinded_beacon_block_large },
    Wrap { name: "BlindedBeaconBlockBody", from: Fork::Bellatrix, run: blinded_beacon_block_body, large: blinded_beacon_block_body_large },
    Wrap { name: "ExecutionPayload", from: Fork::Bellatrix, run: execution_payload, large: execution_payload_large },
    Wrap { name: "ExecutionPayloadHeader", from: Fork::Bellatrix, run: execution_payload_header, large: execution_payload_header_large },
    Wrap { name: "SignedBeaconBlock", from: Fork::Phase0, run: signed_beacon_block, large: signed_beacon_block_large },
    Wrap { name: "SignedBlindedBeaconBlock", from: Fork::Bellatrix, run: signed_blinded_beacon_block, large: signed_blinded_beacon_block_large },
];

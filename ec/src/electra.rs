//! Electra has no preset-specialised type names in /repo; these restate them.
pub mod minimal {
    use ethereum_consensus::{deneb::minimal as d, electra::minimal as e, electra::spec};
    pub use ethereum_consensus::electra::minimal::*;
    pub use ethereum_consensus::deneb::minimal::{SyncAggregate, SyncCommittee, SyncCommitteeContribution, ContributionAndProof, SignedContributionAndProof, HistoricalBatch, PendingAttestation, LightClientHeader, LightClientBootstrap, LightClientUpdate, LightClientFinalityUpdate, LightClientOptimisticUpdate, BlobSidecar, BlobsBundle, Blob};
    pub type BeaconState = spec::BeaconState<{ d::SLOTS_PER_HISTORICAL_ROOT }, { d::HISTORICAL_ROOTS_LIMIT }, { d::ETH1_DATA_VOTES_BOUND }, { d::VALIDATOR_REGISTRY_LIMIT }, { d::EPOCHS_PER_HISTORICAL_VECTOR }, { d::EPOCHS_PER_SLASHINGS_VECTOR }, { d::MAX_VALIDATORS_PER_COMMITTEE }, { d::SYNC_COMMITTEE_SIZE }, { d::BYTES_PER_LOGS_BLOOM }, { d::MAX_EXTRA_DATA_BYTES }, { e::PENDING_BALANCE_DEPOSITS_LIMIT }, { e::PENDING_PARTIAL_WITHDRAWALS_LIMIT }, { e::PENDING_CONSOLIDATIONS_LIMIT }>;
    pub type BeaconBlockBody = spec::BeaconBlockBody<{ d::MAX_PROPOSER_SLASHINGS }, { d::MAX_VALIDATORS_PER_COMMITTEE * 4 }, 4, { e::MAX_ATTESTER_SLASHINGS_ELECTRA }, { e::MAX_ATTESTATIONS_ELECTRA }, { d::MAX_DEPOSITS }, { d::MAX_VOLUNTARY_EXITS }, { d::SYNC_COMMITTEE_SIZE }, { d::BYTES_PER_LOGS_BLOOM }, { d::MAX_EXTRA_DATA_BYTES }, { d::MAX_BYTES_PER_TRANSACTION }, { d::MAX_TRANSACTIONS_PER_PAYLOAD }, { d::MAX_WITHDRAWALS_PER_PAYLOAD }, { e::MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD }, { e::MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD }, { d::MAX_BLS_TO_EXECUTION_CHANGES }, { d::MAX_BLOB_COMMITMENTS_PER_BLOCK }, { e::MAX_CONSOLIDATIONS }>;
    pub type BeaconBlock = spec::BeaconBlock<{ d::MAX_PROPOSER_SLASHINGS }, { d::MAX_VALIDATORS_PER_COMMITTEE * 4 }, 4, { e::MAX_ATTESTER_SLASHINGS_ELECTRA }, { e::MAX_ATTESTATIONS_ELECTRA }, { d::MAX_DEPOSITS }, { d::MAX_VOLUNTARY_EXITS }, { d::SYNC_COMMITTEE_SIZE }, { d::BYTES_PER_LOGS_BLOOM }, { d::MAX_EXTRA_DATA_BYTES }, { d::MAX_BYTES_PER_TRANSACTION }, { d::MAX_TRANSACTIONS_PER_PAYLOAD }, { d::MAX_WITHDRAWALS_PER_PAYLOAD }, { e::MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD }, { e::MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD }, { d::MAX_BLS_TO_EXECUTION_CHANGES }, { d::MAX_BLOB_COMMITMENTS_PER_BLOCK }, { e::MAX_CONSOLIDATIONS }>;
    pub type SignedBeaconBlock = spec::SignedBeaconBlock<{ d::MAX_PROPOSER_SLASHINGS }, { d::MAX_VALIDATORS_PER_COMMITTEE * 4 }, 4, { e::MAX_ATTESTER_SLASHINGS_ELECTRA }, { e::MAX_ATTESTATIONS_ELECTRA }, { d::MAX_DEPOSITS }, { d::MAX_VOLUNTARY_EXITS }, { d::SYNC_COMMITTEE_SIZE }, { d::BYTES_PER_LOGS_BLOOM }, { d::MAX_EXTRA_DATA_BYTES }, { d::MAX_BYTES_PER_TRANSACTION }, { d::MAX_TRANSACTIONS_PER_PAYLOAD }, { d::MAX_WITHDRAWALS_PER_PAYLOAD }, { e::MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD }, { e::MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD }, { d::MAX_BLS_TO_EXECUTION_CHANGES }, { d::MAX_BLOB_COMMITMENTS_PER_BLOCK }, { e::MAX_CONSOLIDATIONS }>;
    pub type ExecutionPayload = spec::ExecutionPayload<{ d::BYTES_PER_LOGS_BLOOM }, { d::MAX_EXTRA_DATA_BYTES }, { d::MAX_BYTES_PER_TRANSACTION }, { d::MAX_TRANSACTIONS_PER_PAYLOAD }, { d::MAX_WITHDRAWALS_PER_PAYLOAD }, { e::MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD }, { e::MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD }>;
    pub type ExecutionPayloadHeader = spec::ExecutionPayloadHeader<{ d::BYTES_PER_LOGS_BLOOM }, { d::MAX_EXTRA_DATA_BYTES }>;
    pub type Attestation = spec::Attestation<{ d::MAX_VALIDATORS_PER_COMMITTEE * 4 }, 4>;
    pub type IndexedAttestation = spec::IndexedAttestation<{ d::MAX_VALIDATORS_PER_COMMITTEE * 4 }>;
    pub type AttesterSlashing = spec::AttesterSlashing<{ d::MAX_VALIDATORS_PER_COMMITTEE * 4 }>;
}
pub mod mainnet {
    use ethereum_consensus::{deneb::mainnet as d, electra::mainnet as e, electra::spec};
    pub use ethereum_consensus::electra::mainnet::*;
    pub use ethereum_consensus::deneb::mainnet::{SyncAggregate, SyncCommittee, SyncCommitteeContribution, ContributionAndProof, SignedContributionAndProof, HistoricalBatch, PendingAttestation, LightClientHeader, LightClientBootstrap, LightClientUpdate, LightClientFinalityUpdate, LightClientOptimisticUpdate, BlobSidecar, BlobsBundle, Blob};
    pub type BeaconState = spec::BeaconState<{ d::SLOTS_PER_HISTORICAL_ROOT }, { d::HISTORICAL_ROOTS_LIMIT }, { d::ETH1_DATA_VOTES_BOUND }, { d::VALIDATOR_REGISTRY_LIMIT }, { d::EPOCHS_PER_HISTORICAL_VECTOR }, { d::EPOCHS_PER_SLASHINGS_VECTOR }, { d::MAX_VALIDATORS_PER_COMMITTEE }, { d::SYNC_COMMITTEE_SIZE }, { d::BYTES_PER_LOGS_BLOOM }, { d::MAX_EXTRA_DATA_BYTES }, { e::PENDING_BALANCE_DEPOSITS_LIMIT }, { e::PENDING_PARTIAL_WITHDRAWALS_LIMIT }, { e::PENDING_CONSOLIDATIONS_LIMIT }>;
    pub type BeaconBlockBody = spec::BeaconBlockBody<{ d::MAX_PROPOSER_SLASHINGS }, { d::MAX_VALIDATORS_PER_COMMITTEE * 64 }, 64, { e::MAX_ATTESTER_SLASHINGS_ELECTRA }, { e::MAX_ATTESTATIONS_ELECTRA }, { d::MAX_DEPOSITS }, { d::MAX_VOLUNTARY_EXITS }, { d::SYNC_COMMITTEE_SIZE }, { d::BYTES_PER_LOGS_BLOOM }, { d::MAX_EXTRA_DATA_BYTES }, { d::MAX_BYTES_PER_TRANSACTION }, { d::MAX_TRANSACTIONS_PER_PAYLOAD }, { d::MAX_WITHDRAWALS_PER_PAYLOAD }, { e::MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD }, { e::MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD }, { d::MAX_BLS_TO_EXECUTION_CHANGES }, { d::MAX_BLOB_COMMITMENTS_PER_BLOCK }, { e::MAX_CONSOLIDATIONS }>;
    pub type BeaconBlock = spec::BeaconBlock<{ d::MAX_PROPOSER_SLASHINGS }, { d::MAX_VALIDATORS_PER_COMMITTEE * 64 }, 64, { e::MAX_ATTESTER_SLASHINGS_ELECTRA }, { e::MAX_ATTESTATIONS_ELECTRA }, { d::MAX_DEPOSITS }, { d::MAX_VOLUNTARY_EXITS }, { d::SYNC_COMMITTEE_SIZE }, { d::BYTES_PER_LOGS_BLOOM }, { d::MAX_EXTRA_DATA_BYTES }, { d::MAX_BYTES_PER_TRANSACTION }, { d::MAX_TRANSACTIONS_PER_PAYLOAD }, { d::MAX_WITHDRAWALS_PER_PAYLOAD }, { e::MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD }, { e::MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD }, { d::MAX_BLS_TO_EXECUTION_CHANGES }, { d::MAX_BLOB_COMMITMENTS_PER_BLOCK }, { e::MAX_CONSOLIDATIONS }>;
    pub type SignedBeaconBlock = spec::SignedBeaconBlock<{ d::MAX_PROPOSER_SLASHINGS }, { d::MAX_VALIDATORS_PER_COMMITTEE * 64 }, 64, { e::MAX_ATTESTER_SLASHINGS_ELECTRA }, { e::MAX_ATTESTATIONS_ELECTRA }, { d::MAX_DEPOSITS }, { d::MAX_VOLUNTARY_EXITS }, { d::SYNC_COMMITTEE_SIZE }, { d::BYTES_PER_LOGS_BLOOM }, { d::MAX_EXTRA_DATA_BYTES }, { d::MAX_BYTES_PER_TRANSACTION }, { d::MAX_TRANSACTIONS_PER_PAYLOAD }, { d::MAX_WITHDRAWALS_PER_PAYLOAD }, { e::MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD }, { e::MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD }, { d::MAX_BLS_TO_EXECUTION_CHANGES }, { d::MAX_BLOB_COMMITMENTS_PER_BLOCK }, { e::MAX_CONSOLIDATIONS }>;
    pub type ExecutionPayload = spec::ExecutionPayload<{ d::BYTES_PER_LOGS_BLOOM }, { d::MAX_EXTRA_DATA_BYTES }, { d::MAX_BYTES_PER_TRANSACTION }, { d::MAX_TRANSACTIONS_PER_PAYLOAD }, { d::MAX_WITHDRAWALS_PER_PAYLOAD }, { e::MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD }, { e::MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD }>;
    pub type ExecutionPayloadHeader = spec::ExecutionPayloadHeader<{ d::BYTES_PER_LOGS_BLOOM }, { d::MAX_EXTRA_DATA_BYTES }>;
    pub type Attestation = spec::Attestation<{ d::MAX_VALIDATORS_PER_COMMITTEE * 64 }, 64>;
    pub type IndexedAttestation = spec::IndexedAttestation<{ d::MAX_VALIDATORS_PER_COMMITTEE * 64 }>;
    pub type AttesterSlashing = spec::AttesterSlashing<{ d::MAX_VALIDATORS_PER_COMMITTEE * 64 }>;
}

//! Container schemas, written in the notation of the consensus specification.
use crate::{cfg::*, ssz::*};
use std::{
    collections::HashMap,
    sync::{Arc, Mutex, OnceLock},
};

const PHASE0: &str = "
Fork: previous_version Bytes4, current_version Bytes4, epoch u64
ForkData: current_version Bytes4, genesis_validators_root Bytes32
Checkpoint: epoch u64, root Bytes32
Validator: pubkey Bytes48, withdrawal_credentials Bytes32, effective_balance u64, slashed bool, activation_eligibility_epoch u64, activation_epoch u64, exit_epoch u64, withdrawable_epoch u64
AttestationData: slot u64, index u64, beacon_block_root Bytes32, source Checkpoint, target Checkpoint
IndexedAttestation: attesting_indices List[u64|MAX_VALIDATORS_PER_COMMITTEE], data AttestationData, signature Bytes96
PendingAttestation: aggregation_bits Bitlist[MAX_VALIDATORS_PER_COMMITTEE], data AttestationData, inclusion_delay u64, proposer_index u64
Eth1Data: deposit_root Bytes32, deposit_count u64, block_hash Bytes32
HistoricalBatch: block_roots Vector[Bytes32|SLOTS_PER_HISTORICAL_ROOT], state_roots Vector[Bytes32|SLOTS_PER_HISTORICAL_ROOT]
HistoricalSummary: block_summary_root Bytes32, state_summary_root Bytes32
DepositMessage: pubkey Bytes48, withdrawal_credentials Bytes32, amount u64
DepositData: pubkey Bytes48, withdrawal_credentials Bytes32, amount u64, signature Bytes96
BeaconBlockHeader: slot u64, proposer_index u64, parent_root Bytes32, state_root Bytes32, body_root Bytes32
SigningData: object_root Bytes32, domain Bytes32
AttesterSlashing: attestation_1 IndexedAttestation, attestation_2 IndexedAttestation
ProposerSlashing: signed_header_1 SignedBeaconBlockHeader, signed_header_2 SignedBeaconBlockHeader
SignedBeaconBlockHeader: message BeaconBlockHeader, signature Bytes96
Attestation: aggregation_bits Bitlist[MAX_VALIDATORS_PER_COMMITTEE], data AttestationData, signature Bytes96
Deposit: proof Vector[Bytes32|33], data DepositData
VoluntaryExit: epoch u64, validator_index u64
SignedVoluntaryExit: message VoluntaryExit, signature Bytes96
BeaconBlockBody: randao_reveal Bytes96, eth1_data Eth1Data, graffiti Bytes32, proposer_slashings List[ProposerSlashing|MAX_PROPOSER_SLASHINGS], attester_slashings List[AttesterSlashing|MAX_ATTESTER_SLASHINGS], attestations List[Attestation|MAX_ATTESTATIONS], deposits List[Deposit|MAX_DEPOSITS], voluntary_exits List[SignedVoluntaryExit|MAX_VOLUNTARY_EXITS]
BeaconBlock: slot u64, proposer_index u64, parent_root Bytes32, state_root Bytes32, body BeaconBlockBody
SignedBeaconBlock: message BeaconBlock, signature Bytes96
Eth1Block: timestamp u64, deposit_root Bytes32, deposit_count u64
AggregateAndProof: aggregator_index u64, aggregate Attestation, selection_proof Bytes96
SignedAggregateAndProof: message AggregateAndProof, signature Bytes96
BeaconState: genesis_time u64, genesis_validators_root Bytes32, slot u64, fork Fork, latest_block_header BeaconBlockHeader, block_roots Vector[Bytes32|SLOTS_PER_HISTORICAL_ROOT], state_roots Vector[Bytes32|SLOTS_PER_HISTORICAL_ROOT], historical_roots List[Bytes32|HISTORICAL_ROOTS_LIMIT], eth1_data Eth1Data, eth1_data_votes List[Eth1Data|ETH1_DATA_VOTES_BOUND], eth1_deposit_index u64, validators List[Validator|VALIDATOR_REGISTRY_LIMIT], balances List[u64|VALIDATOR_REGISTRY_LIMIT], randao_mixes Vector[Bytes32|EPOCHS_PER_HISTORICAL_VECTOR], slashings Vector[u64|EPOCHS_PER_SLASHINGS_VECTOR], previous_epoch_attestations List[PendingAttestation|PENDING_ATTESTATIONS_BOUND], current_epoch_attestations List[PendingAttestation|PENDING_ATTESTATIONS_BOUND], justification_bits Bitvector[4], previous_justified_checkpoint Checkpoint, current_justified_checkpoint Checkpoint, finalized_checkpoint Checkpoint
";
const ALTAIR: &str = "
SyncAggregate: sync_committee_bits Bitvector[SYNC_COMMITTEE_SIZE], sync_committee_signature Bytes96
SyncCommittee: pubkeys Vector[Bytes48|SYNC_COMMITTEE_SIZE], aggregate_pubkey Bytes48
BeaconBlockBody: +BeaconBlockBody, sync_aggregate SyncAggregate
BeaconState: genesis_time u64, genesis_validators_root Bytes32, slot u64, fork Fork, latest_block_header BeaconBlockHeader, block_roots Vector[Bytes32|SLOTS_PER_HISTORICAL_ROOT], state_roots Vector[Bytes32|SLOTS_PER_HISTORICAL_ROOT], historical_roots List[Bytes32|HISTORICAL_ROOTS_LIMIT], eth1_data Eth1Data, eth1_data_votes List[Eth1Data|ETH1_DATA_VOTES_BOUND], eth1_deposit_index u64, validators List[Validator|VALIDATOR_REGISTRY_LIMIT], balances List[u64|VALIDATOR_REGISTRY_LIMIT], randao_mixes Vector[Bytes32|EPOCHS_PER_HISTORICAL_VECTOR], slashings Vector[u64|EPOCHS_PER_SLASHINGS_VECTOR], previous_epoch_participation List[u8|VALIDATOR_REGISTRY_LIMIT], current_epoch_participation List[u8|VALIDATOR_REGISTRY_LIMIT], justification_bits Bitvector[4], previous_justified_checkpoint Checkpoint, current_justified_checkpoint Checkpoint, finalized_checkpoint Checkpoint, inactivity_scores List[u64|VALIDATOR_REGISTRY_LIMIT], current_sync_committee SyncCommittee, next_sync_committee SyncCommittee
SyncCommitteeMessage: slot u64, beacon_block_root Bytes32, validator_index u64, signature Bytes96
SyncCommitteeContribution: slot u64, beacon_block_root Bytes32, subcommittee_index u64, aggregation_bits Bitvector[SYNC_SUBCOMMITTEE_SIZE], signature Bytes96
ContributionAndProof: aggregator_index u64, contribution SyncCommitteeContribution, selection_proof Bytes96
SignedContributionAndProof: message ContributionAndProof, signature Bytes96
SyncAggregatorSelectionData: slot u64, subcommittee_index u64
LightClientHeader: beacon BeaconBlockHeader
LightClientBootstrap: header LightClientHeader, current_sync_committee SyncCommittee, current_sync_committee_branch Vector[Bytes32|5]
LightClientUpdate: attested_header LightClientHeader, next_sync_committee SyncCommittee, next_sync_committee_branch Vector[Bytes32|5], finalized_header LightClientHeader, finality_branch Vector[Bytes32|6], sync_aggregate SyncAggregate, signature_slot u64
LightClientFinalityUpdate: attested_header LightClientHeader, finalized_header LightClientHeader, finality_branch Vector[Bytes32|6], sync_aggregate SyncAggregate, signature_slot u64
LightClientOptimisticUpdate: attested_header LightClientHeader, sync_aggregate SyncAggregate, signature_slot u64
";
const BELLATRIX: &str = "
PowBlock: block_hash Bytes32, parent_hash Bytes32, total_difficulty u256
ExecutionPayload: parent_hash Bytes32, fee_recipient Bytes20, state_root Bytes32, receipts_root Bytes32, logs_bloom Bytes[BYTES_PER_LOGS_BLOOM], prev_randao Bytes32, block_number u64, gas_limit u64, gas_used u64, timestamp u64, extra_data ByteList[MAX_EXTRA_DATA_BYTES], base_fee_per_gas u256, block_hash Bytes32, transactions List[Transaction|MAX_TRANSACTIONS_PER_PAYLOAD]
ExecutionPayloadHeader: parent_hash Bytes32, fee_recipient Bytes20, state_root Bytes32, receipts_root Bytes32, logs_bloom Bytes[BYTES_PER_LOGS_BLOOM], prev_randao Bytes32, block_number u64, gas_limit u64, gas_used u64, timestamp u64, extra_data ByteList[MAX_EXTRA_DATA_BYTES], base_fee_per_gas u256, block_hash Bytes32, transactions_root Bytes32
BeaconBlockBody: +BeaconBlockBody, execution_payload ExecutionPayload
BeaconState: +BeaconState, latest_execution_payload_header ExecutionPayloadHeader
BlindedBeaconBlockBody: ~BeaconBlockBody
BlindedBeaconBlock: slot u64, proposer_index u64, parent_root Bytes32, state_root Bytes32, body BlindedBeaconBlockBody
SignedBlindedBeaconBlock: message BlindedBeaconBlock, signature Bytes96
";
const CAPELLA: &str = "
Withdrawal: index u64, validator_index u64, address Bytes20, amount u64
BLSToExecutionChange: validator_index u64, from_bls_pubkey Bytes48, to_execution_address Bytes20
SignedBLSToExecutionChange: message BLSToExecutionChange, signature Bytes96
ExecutionPayload: +ExecutionPayload, withdrawals List[Withdrawal|MAX_WITHDRAWALS_PER_PAYLOAD]
ExecutionPayloadHeader: +ExecutionPayloadHeader, withdrawals_root Bytes32
BeaconBlockBody: +BeaconBlockBody, bls_to_execution_changes List[SignedBLSToExecutionChange|MAX_BLS_TO_EXECUTION_CHANGES]
BeaconState: +BeaconState, next_withdrawal_index u64, next_withdrawal_validator_index u64, historical_summaries List[HistoricalSummary|HISTORICAL_ROOTS_LIMIT]
BlindedBeaconBlockBody: ~BeaconBlockBody
LightClientHeader: beacon BeaconBlockHeader, execution ExecutionPayloadHeader, execution_branch Vector[Bytes32|4]
";
const DENEB: &str = "
ExecutionPayload: +ExecutionPayload, blob_gas_used u64, excess_blob_gas u64
ExecutionPayloadHeader: +ExecutionPayloadHeader, blob_gas_used u64, excess_blob_gas u64
BeaconBlockBody: +BeaconBlockBody, blob_kzg_commitments List[Bytes48|MAX_BLOB_COMMITMENTS_PER_BLOCK]
BlindedBeaconBlockBody: ~BeaconBlockBody
BlobIdentifier: block_root Bytes32, index u64
BlobSidecar: index u64, blob Bytes[BYTES_PER_BLOB], kzg_commitment Bytes48, kzg_proof Bytes48, signed_block_header SignedBeaconBlockHeader, kzg_commitment_inclusion_proof Vector[Bytes32|KZG_COMMITMENT_INCLUSION_PROOF_DEPTH]
";
const ELECTRA: &str = "
DepositReceipt: pubkey Bytes48, withdrawal_credentials Bytes32, amount u64, signature Bytes96, index u64
PendingBalanceDeposit: index u64, amount u64
PendingPartialWithdrawal: index u64, amount u64, withdrawable_epoch u64
PendingConsolidation: source_index u64, target_index u64
ExecutionLayerWithdrawalRequest: source_address Bytes20, validator_pubkey Bytes48, amount u64
Consolidation: source_index u64, target_index u64, epoch u64
SignedConsolidation: message Consolidation, signature Bytes96
IndexedAttestation: attesting_indices List[u64|MAX_VALIDATORS_PER_SLOT], data AttestationData, signature Bytes96
Attestation: aggregation_bits Bitlist[MAX_VALIDATORS_PER_SLOT], data AttestationData, committee_bits Bitvector[MAX_COMMITTEES_PER_SLOT], signature Bytes96
ExecutionPayload: +ExecutionPayload, deposit_receipts List[DepositReceipt|MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD], withdrawal_requests List[ExecutionLayerWithdrawalRequest|MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD]
ExecutionPayloadHeader: +ExecutionPayloadHeader, deposit_receipts_root Bytes32, withdrawal_requests_root Bytes32
BeaconBlockBody: randao_reveal Bytes96, eth1_data Eth1Data, graffiti Bytes32, proposer_slashings List[ProposerSlashing|MAX_PROPOSER_SLASHINGS], attester_slashings List[AttesterSlashing|MAX_ATTESTER_SLASHINGS_ELECTRA], attestations List[Attestation|MAX_ATTESTATIONS_ELECTRA], deposits List[Deposit|MAX_DEPOSITS], voluntary_exits List[SignedVoluntaryExit|MAX_VOLUNTARY_EXITS], sync_aggregate SyncAggregate, execution_payload ExecutionPayload, bls_to_execution_changes List[SignedBLSToExecutionChange|MAX_BLS_TO_EXECUTION_CHANGES], blob_kzg_commitments List[Bytes48|MAX_BLOB_COMMITMENTS_PER_BLOCK], consolidations List[SignedConsolidation|MAX_CONSOLIDATIONS]
BeaconState: +BeaconState, deposit_receipts_start_index u64, deposit_balance_to_consume u64, exit_balance_to_consume u64, earliest_exit_epoch u64, consolidation_balance_to_consume u64, earliest_consolidation_epoch u64, pending_balance_deposits List[PendingBalanceDeposit|PENDING_BALANCE_DEPOSITS_LIMIT], pending_partial_withdrawals List[PendingPartialWithdrawal|PENDING_PARTIAL_WITHDRAWALS_LIMIT], pending_consolidations List[PendingConsolidation|PENDING_CONSOLIDATIONS_LIMIT]
BlindedBeaconBlockBody: ~BeaconBlockBody
";
const BUILDER: &str = "
ValidatorRegistration: fee_recipient Bytes20, gas_limit u64, timestamp u64, pubkey Bytes48
SignedValidatorRegistration: message ValidatorRegistration, signature Bytes96
";

struct Table {
    defs: HashMap<String, Vec<(Fork, String)>>,
}
fn table() -> &'static Table {
    static T: OnceLock<Table> = OnceLock::new();
    T.get_or_init(|| {
        let mut defs: HashMap<String, Vec<(Fork, String)>> = HashMap::new();
        for (f, t) in [(Phase0, PHASE0), (Phase0, BUILDER), (Altair, ALTAIR), (Bellatrix, BELLATRIX), (Capella, CAPELLA), (Deneb, DENEB), (Electra, ELECTRA)] {
            for l in t.lines().filter(|l| !l.is_empty()) {
                let (n, body) = l.split_once(": ").unwrap();
                defs.entry(n.into()).or_default().push((f, body.into()));
            }
        }
        Table { defs }
    })
}
/// names of all containers defined at a fork
pub fn names(fork: Fork) -> Vec<String> {
    let mut v: Vec<String> =
        table().defs.iter().filter(|(_, d)| d.iter().any(|(f, _)| *f <= fork)).map(|(n, _)| n.clone()).collect();
    v.sort();
    v
}
/// is the container (re)defined, directly or through a field, compared with the previous fork?
pub fn lookup_const(k: &Consts, n: &str) -> usize {
    if let Ok(x) = n.parse() {
        return x;
    }
    (match n {
        "ETH1_DATA_VOTES_BOUND" => k.EPOCHS_PER_ETH1_VOTING_PERIOD * k.SLOTS_PER_EPOCH,
        "PENDING_ATTESTATIONS_BOUND" => k.MAX_ATTESTATIONS * k.SLOTS_PER_EPOCH,
        "SYNC_SUBCOMMITTEE_SIZE" => k.SYNC_COMMITTEE_SIZE / 4,
        "MAX_VALIDATORS_PER_SLOT" => k.MAX_VALIDATORS_PER_COMMITTEE * k.MAX_COMMITTEES_PER_SLOT,
        "BYTES_PER_BLOB" => 32 * k.FIELD_ELEMENTS_PER_BLOB,
        n => k.get(n).unwrap_or_else(|| panic!("constant {n}")),
    }) as usize
}
/// type of a container at a fork
pub fn ty(p: Preset, fork: Fork, name: &str) -> Ty {
    static CACHE: OnceLock<Mutex<HashMap<(Preset, Fork, String), Ty>>> = OnceLock::new();
    let c = CACHE.get_or_init(Default::default);
    if let Some(t) = c.lock().unwrap().get(&(p, fork, name.to_string())) {
        return t.clone();
    }
    let t = build(p, fork, name);
    c.lock().unwrap().insert((p, fork, name.to_string()), t.clone());
    t
}
fn split(s: &str) -> Vec<&str> {
    s.split(", ").collect()
}
fn def_fields(fork: Fork, name: &str) -> Vec<(String, String)> {
    let d = table().defs.get(name).unwrap_or_else(|| panic!("container {name}"));
    let (f, body) = d.iter().filter(|(f, _)| *f <= fork).last().unwrap_or_else(|| panic!("{name} at {fork:?}"));
    let mut out = vec![];
    for part in split(body) {
        if let Some(base) = part.strip_prefix('+') {
            let prev = FORKS[*f as usize - 1];
            out.extend(def_fields(prev, base));
        } else if let Some(base) = part.strip_prefix('~') {
            for (n, t) in def_fields(*f, base) {
                if n == "execution_payload" {
                    out.push(("execution_payload_header".into(), "ExecutionPayloadHeader".into()));
                } else {
                    out.push((n, t));
                }
            }
        } else {
            let (n, t) = part.split_once(' ').unwrap();
            out.push((n.into(), t.into()));
        }
    }
    out
}
fn build(p: Preset, fork: Fork, name: &str) -> Ty {
    let fields = def_fields(fork, name);
    Ty::Cont(Arc::new(ContTy {
        name: name.into(),
        fields: fields.into_iter().map(|(n, t)| (n, parse(p, fork, &t))).collect(),
    }))
}
pub fn parse(p: Preset, fork: Fork, t: &str) -> Ty {
    let k = consts(p);
    let arg = |t: &str| -> (String, String) {
        let i = t.find('[').unwrap();
        (t[..i].to_string(), t[i + 1..t.len() - 1].to_string())
    };
    match t {
        "u8" => Ty::U8,
        "u64" => Ty::U64,
        "u256" => Ty::U256,
        "bool" => Ty::Bool,
        "Transaction" => Ty::ByteList(k.MAX_BYTES_PER_TRANSACTION as usize),
        _ if t.ends_with(']') => {
            let (h, a) = arg(t);
            let two = || {
                let (e, n) = a.rsplit_once('|').unwrap();
                (parse(p, fork, e), lookup_const(&k, n))
            };
            match h.as_str() {
                "List" => {
                    let (e, n) = two();
                    list(e, n)
                }
                "Vector" => {
                    let (e, n) = two();
                    vector(e, n)
                }
                "Bitlist" => Ty::Bitlist(lookup_const(&k, &a)),
                "Bitvector" => Ty::Bitvector(lookup_const(&k, &a)),
                "Bytes" => Ty::Bytes(lookup_const(&k, &a)),
                "ByteList" => Ty::ByteList(lookup_const(&k, &a)),
                h => panic!("type {h}"),
            }
        }
        _ if t.starts_with("Bytes") => Ty::Bytes(t[5..].parse().unwrap()),
        name => ty(p, fork, name),
    }
}

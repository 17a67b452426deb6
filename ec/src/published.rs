//! Published presets and configurations (consensus-specs v1.5.0-alpha.2, eth-clients), typed from the
//! specifications; a value is its decimal or hex text.
pub const NETWORKS: [&str; 6] = ["mainnet", "minimal", "goerli", "sepolia", "holesky", "hoodi"];
/// name, mainnet, minimal
pub const PRESETS: &str = "
max_committees_per_slot 64 4
target_committee_size 128 4
max_validators_per_committee 2048 2048
shuffle_round_count 90 10
hysteresis_quotient 4 4
hysteresis_downward_multiplier 1 1
hysteresis_upward_multiplier 5 5
min_deposit_amount 1000000000 1000000000
max_effective_balance 32000000000 32000000000
effective_balance_increment 1000000000 1000000000
min_attestation_inclusion_delay 1 1
slots_per_epoch 32 8
min_seed_lookahead 1 1
max_seed_lookahead 4 4
min_epochs_to_inactivity_penalty 4 4
epochs_per_eth1_voting_period 64 4
slots_per_historical_root 8192 64
epochs_per_historical_vector 65536 64
epochs_per_slashings_vector 8192 64
historical_roots_limit 16777216 16777216
validator_registry_limit 1099511627776 1099511627776
base_reward_factor 64 64
whistleblower_reward_quotient 512 512
proposer_reward_quotient 8 8
inactivity_penalty_quotient 67108864 33554432
min_slashing_penalty_quotient 128 64
proportional_slashing_multiplier 1 2
max_proposer_slashings 16 16
max_attester_slashings 2 2
max_attestations 128 128
max_deposits 16 16
max_voluntary_exits 16 16
inactivity_penalty_quotient_altair 50331648 50331648
min_slashing_penalty_quotient_altair 64 64
proportional_slashing_multiplier_altair 2 2
sync_committee_size 512 32
epochs_per_sync_committee_period 256 8
min_sync_committee_participants 1 1
update_timeout 8192 64
inactivity_penalty_quotient_bellatrix 16777216 16777216
min_slashing_penalty_quotient_bellatrix 32 32
proportional_slashing_multiplier_bellatrix 3 3
max_bytes_per_transaction 1073741824 1073741824
max_transactions_per_payload 1048576 1048576
bytes_per_logs_bloom 256 256
max_extra_data_bytes 32 32
max_bls_to_execution_changes 16 16
max_withdrawals_per_payload 16 4
max_validators_per_withdrawals_sweep 16384 16
field_elements_per_blob 4096 4096
max_blob_commitments_per_block 4096 16
max_blobs_per_block 6 6
min_activation_balance 32000000000 32000000000
max_effective_balance_electra 2048000000000 2048000000000
min_slashing_penalty_quotient_electra 4096 4096
whistleblower_reward_quotient_electra 4096 4096
pending_balance_deposits_limit 134217728 134217728
pending_partial_withdrawals_limit 134217728 64
pending_consolidations_limit 262144 64
max_attester_slashings_electra 1 1
max_attestations_electra 8 8
max_consolidations 1 1
max_deposit_receipts_per_payload 8192 4
max_withdrawal_requests_per_payload 16 2
max_pending_partials_per_withdrawals_sweep 8 1
";
/// name, kind of value, then one value per network in the order of `NETWORKS` (a single value: the same for all);
/// `far` is FAR_FUTURE_EPOCH
pub const CONFIGS: &str = "
terminal_total_difficulty u256 58750000000000000000000 115792089237316195423570985008687907853269984665640564039457584007913129638912 10790000 17000000000000000 0 0
terminal_block_hash h32 0x0000000000000000000000000000000000000000000000000000000000000000
terminal_block_hash_activation_epoch u64 far
min_genesis_active_validator_count u64 16384 64 16384 1300 16384 16384
min_genesis_time u64 1606824000 1578009600 1614588812 1655647200 1695902100 1742212800
genesis_fork_version h4 0x00000000 0x00000001 0x00001020 0x90000069 0x01017000 0x10000910
genesis_delay u64 604800 300 1919188 86400 300 600
altair_fork_version h4 0x01000000 0x01000001 0x01001020 0x90000070 0x02017000 0x20000910
altair_fork_epoch u64 74240 far 36660 50 0 0
bellatrix_fork_version h4 0x02000000 0x02000001 0x02001020 0x90000071 0x03017000 0x30000910
bellatrix_fork_epoch u64 144896 far 112260 100 0 0
capella_fork_version h4 0x03000000 0x03000001 0x03001020 0x90000072 0x04017000 0x40000910
capella_fork_epoch u64 194048 far 162304 56832 256 0
deneb_fork_version h4 0x04000000 0x04000001 0x04001020 0x90000073 0x05017000 0x50000910
deneb_fork_epoch u64 269568 far 231680 132608 29696 0
electra_fork_version h4 0x05000000 0x05000001 0x05001020 0x90000074 0x06017000 0x60000910
electra_fork_epoch u64 far far far far far 2048
seconds_per_slot u64 12 6 12 12 12 12
seconds_per_eth1_block u64 14 14 14 14 14 12
min_validator_withdrawability_delay u64 256
shard_committee_period u64 256 64 256 256 256 256
eth1_follow_distance u64 2048 16 2048 2048 2048 2048
inactivity_score_bias u64 4
inactivity_score_recovery_rate u64 16
ejection_balance u64 16000000000 16000000000 16000000000 16000000000 28000000000 16000000000
min_per_epoch_churn_limit u64 4 2 4 4 4 4
max_per_epoch_activation_churn_limit u64 8 4 8 8 8 8
churn_limit_quotient u64 65536 32 65536 65536 65536 65536
min_per_epoch_churn_limit_electra u64 128000000000 64000000000 128000000000 128000000000 128000000000 128000000000
max_per_epoch_activation_exit_churn_limit u64 256000000000 128000000000 256000000000 256000000000 256000000000 256000000000
proposer_score_boost u64 40
deposit_chain_id u64 1 5 5 11155111 17000 560048
deposit_network_id u64 1 5 5 11155111 17000 560048
deposit_contract_address h20 0x00000000219ab540356cbb839cbe05303d7705fa 0x1234567890123456789012345678901234567890 0xff50ed3d0ec03ac01d4c79aad74928bff48a7b2b 0x7f02c3e3c98b133055b8b348b2ac625669ed295d 0x4242424242424242424242424242424242424242 0x00000000219ab540356cbb839cbe05303d7705fa
";
/// genesis times of the established networks, in the order of `NETWORKS`
pub const GENESIS: [Option<u64>; 6] = [Some(1606824023), None, Some(1616508000), Some(1655733600), Some(1695902400), Some(1742213400)];

pub fn preset(minimal: bool) -> Vec<(&'static str, String)> {
    PRESETS
        .lines()
        .filter(|l| !l.is_empty())
        .map(|l| {
            let w: Vec<&str> = l.split(' ').collect();
            assert_eq!(w.len(), 3);
            (w[0], w[1 + minimal as usize].to_string())
        })
        .collect()
}
/// name, kind, value
pub fn config(net: usize) -> Vec<(&'static str, &'static str, String)> {
    CONFIGS
        .lines()
        .filter(|l| !l.is_empty())
        .map(|l| {
            let w: Vec<&str> = l.split(' ').collect();
            assert!(w.len() == 3 || w.len() == 8, "{l}");
            let v = w[if w.len() == 3 { 2 } else { 2 + net }];
            (w[0], w[1], if v == "far" { u64::MAX.to_string() } else { v.to_string() })
        })
        .collect()
}

fn hex(b: &[u8]) -> String {
    format!("0x{}", b.iter().map(|x| format!("{x:02x}")).collect::<String>())
}
/// every field of a context, as text
pub fn fields(c: &ethereum_consensus::state_transition::Context) -> Vec<(&'static str, String)> {
    vec![
        ("max_committees_per_slot", c.max_committees_per_slot.to_string()),
        ("target_committee_size", c.target_committee_size.to_string()),
        ("max_validators_per_committee", c.max_validators_per_committee.to_string()),
        ("shuffle_round_count", c.shuffle_round_count.to_string()),
        ("hysteresis_quotient", c.hysteresis_quotient.to_string()),
        ("hysteresis_downward_multiplier", c.hysteresis_downward_multiplier.to_string()),
        ("hysteresis_upward_multiplier", c.hysteresis_upward_multiplier.to_string()),
        ("min_deposit_amount", c.min_deposit_amount.to_string()),
        ("max_effective_balance", c.max_effective_balance.to_string()),
        ("effective_balance_increment", c.effective_balance_increment.to_string()),
        ("min_attestation_inclusion_delay", c.min_attestation_inclusion_delay.to_string()),
        ("slots_per_epoch", c.slots_per_epoch.to_string()),
        ("min_seed_lookahead", c.min_seed_lookahead.to_string()),
        ("max_seed_lookahead", c.max_seed_lookahead.to_string()),
        ("min_epochs_to_inactivity_penalty", c.min_epochs_to_inactivity_penalty.to_string()),
        ("epochs_per_eth1_voting_period", c.epochs_per_eth1_voting_period.to_string()),
        ("slots_per_historical_root", c.slots_per_historical_root.to_string()),
        ("epochs_per_historical_vector", c.epochs_per_historical_vector.to_string()),
        ("epochs_per_slashings_vector", c.epochs_per_slashings_vector.to_string()),
        ("historical_roots_limit", c.historical_roots_limit.to_string()),
        ("validator_registry_limit", c.validator_registry_limit.to_string()),
        ("base_reward_factor", c.base_reward_factor.to_string()),
        ("whistleblower_reward_quotient", c.whistleblower_reward_quotient.to_string()),
        ("proposer_reward_quotient", c.proposer_reward_quotient.to_string()),
        ("inactivity_penalty_quotient", c.inactivity_penalty_quotient.to_string()),
        ("min_slashing_penalty_quotient", c.min_slashing_penalty_quotient.to_string()),
        ("proportional_slashing_multiplier", c.proportional_slashing_multiplier.to_string()),
        ("max_proposer_slashings", c.max_proposer_slashings.to_string()),
        ("max_attester_slashings", c.max_attester_slashings.to_string()),
        ("max_attestations", c.max_attestations.to_string()),
        ("max_deposits", c.max_deposits.to_string()),
        ("max_voluntary_exits", c.max_voluntary_exits.to_string()),
        ("inactivity_penalty_quotient_altair", c.inactivity_penalty_quotient_altair.to_string()),
        ("min_slashing_penalty_quotient_altair", c.min_slashing_penalty_quotient_altair.to_string()),
        ("proportional_slashing_multiplier_altair", c.proportional_slashing_multiplier_altair.to_string()),
        ("sync_committee_size", c.sync_committee_size.to_string()),
        ("epochs_per_sync_committee_period", c.epochs_per_sync_committee_period.to_string()),
        ("min_sync_committee_participants", c.min_sync_committee_participants.to_string()),
        ("update_timeout", c.update_timeout.to_string()),
        ("inactivity_penalty_quotient_bellatrix", c.inactivity_penalty_quotient_bellatrix.to_string()),
        ("min_slashing_penalty_quotient_bellatrix", c.min_slashing_penalty_quotient_bellatrix.to_string()),
        ("proportional_slashing_multiplier_bellatrix", c.proportional_slashing_multiplier_bellatrix.to_string()),
        ("max_bytes_per_transaction", c.max_bytes_per_transaction.to_string()),
        ("max_transactions_per_payload", c.max_transactions_per_payload.to_string()),
        ("bytes_per_logs_bloom", c.bytes_per_logs_bloom.to_string()),
        ("max_extra_data_bytes", c.max_extra_data_bytes.to_string()),
        ("max_bls_to_execution_changes", c.max_bls_to_execution_changes.to_string()),
        ("max_withdrawals_per_payload", c.max_withdrawals_per_payload.to_string()),
        ("max_validators_per_withdrawals_sweep", c.max_validators_per_withdrawals_sweep.to_string()),
        ("field_elements_per_blob", c.field_elements_per_blob.to_string()),
        ("max_blob_commitments_per_block", c.max_blob_commitments_per_block.to_string()),
        ("max_blobs_per_block", c.max_blobs_per_block.to_string()),
        ("min_activation_balance", c.min_activation_balance.to_string()),
        ("max_effective_balance_electra", c.max_effective_balance_electra.to_string()),
        ("min_slashing_penalty_quotient_electra", c.min_slashing_penalty_quotient_electra.to_string()),
        ("whistleblower_reward_quotient_electra", c.whistleblower_reward_quotient_electra.to_string()),
        ("pending_balance_deposits_limit", c.pending_balance_deposits_limit.to_string()),
        ("pending_partial_withdrawals_limit", c.pending_partial_withdrawals_limit.to_string()),
        ("pending_consolidations_limit", c.pending_consolidations_limit.to_string()),
        ("max_attester_slashings_electra", c.max_attester_slashings_electra.to_string()),
        ("max_attestations_electra", c.max_attestations_electra.to_string()),
        ("max_consolidations", c.max_consolidations.to_string()),
        ("max_deposit_receipts_per_payload", c.max_deposit_receipts_per_payload.to_string()),
        ("max_withdrawal_requests_per_payload", c.max_withdrawal_requests_per_payload.to_string()),
        ("max_pending_partials_per_withdrawals_sweep", c.max_pending_partials_per_withdrawals_sweep.to_string()),
        ("terminal_total_difficulty", c.terminal_total_difficulty.to_string()),
        ("terminal_block_hash", hex(c.terminal_block_hash.as_ref())),
        ("terminal_block_hash_activation_epoch", c.terminal_block_hash_activation_epoch.to_string()),
        ("min_genesis_active_validator_count", c.min_genesis_active_validator_count.to_string()),
        ("min_genesis_time", c.min_genesis_time.to_string()),
        ("genesis_fork_version", hex(&c.genesis_fork_version[..])),
        ("genesis_delay", c.genesis_delay.to_string()),
        ("altair_fork_version", hex(&c.altair_fork_version[..])),
        ("altair_fork_epoch", c.altair_fork_epoch.to_string()),
        ("bellatrix_fork_version", hex(&c.bellatrix_fork_version[..])),
        ("bellatrix_fork_epoch", c.bellatrix_fork_epoch.to_string()),
        ("capella_fork_version", hex(&c.capella_fork_version[..])),
        ("capella_fork_epoch", c.capella_fork_epoch.to_string()),
        ("deneb_fork_version", hex(&c.deneb_fork_version[..])),
        ("deneb_fork_epoch", c.deneb_fork_epoch.to_string()),
        ("electra_fork_version", hex(&c.electra_fork_version[..])),
        ("electra_fork_epoch", c.electra_fork_epoch.to_string()),
        ("seconds_per_slot", c.seconds_per_slot.to_string()),
        ("seconds_per_eth1_block", c.seconds_per_eth1_block.to_string()),
        ("min_validator_withdrawability_delay", c.min_validator_withdrawability_delay.to_string()),
        ("shard_committee_period", c.shard_committee_period.to_string()),
        ("eth1_follow_distance", c.eth1_follow_distance.to_string()),
        ("inactivity_score_bias", c.inactivity_score_bias.to_string()),
        ("inactivity_score_recovery_rate", c.inactivity_score_recovery_rate.to_string()),
        ("ejection_balance", c.ejection_balance.to_string()),
        ("min_per_epoch_churn_limit", c.min_per_epoch_churn_limit.to_string()),
        ("max_per_epoch_activation_churn_limit", c.max_per_epoch_activation_churn_limit.to_string()),
        ("churn_limit_quotient", c.churn_limit_quotient.to_string()),
        ("min_per_epoch_churn_limit_electra", c.min_per_epoch_churn_limit_electra.to_string()),
        ("max_per_epoch_activation_exit_churn_limit", c.max_per_epoch_activation_exit_churn_limit.to_string()),
        ("proposer_score_boost", c.proposer_score_boost.to_string()),
        ("deposit_chain_id", c.deposit_chain_id.to_string()),
        ("deposit_network_id", c.deposit_network_id.to_string()),
        ("deposit_contract_address", hex(c.deposit_contract_address.as_ref())),
    ]
}

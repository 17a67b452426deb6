//! Presets and configuration of the consensus specification, restated from the specification documents.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Fork {
    Phase0,
    Altair,
    Bellatrix,
    Capella,
    Deneb,
    Electra,
}
pub use Fork::*;
pub const FORKS: [Fork; 6] = [Phase0, Altair, Bellatrix, Capella, Deneb, Electra];
impl Fork {
    pub fn name(&self) -> &'static str {
        ["phase0", "altair", "bellatrix", "capella", "deneb", "electra"][*self as usize]
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Preset {
    Mainnet,
    Minimal,
}
pub use Preset::*;

pub const FAR_FUTURE: u64 = u64::MAX;
pub const GWEI: u64 = 1_000_000_000;
pub const GENESIS_SLOT: u64 = 0;
pub const GENESIS_EPOCH: u64 = 0;

macro_rules! presets {
    ($($name:ident = $main:expr, $min:expr;)*) => {
        #[allow(non_snake_case)]
        #[derive(Clone, Debug)]
        pub struct Consts { $(pub $name: u64,)* }
        pub fn consts(p: Preset) -> Consts {
            match p { Mainnet => Consts { $($name: $main,)* }, Minimal => Consts { $($name: $min,)* } }
        }
        impl Consts {
            pub fn get(&self, n: &str) -> Option<u64> {
                match n { $(stringify!($name) => Some(self.$name),)* _ => None }
            }
            pub fn names() -> Vec<&'static str> { vec![$(stringify!($name)),*] }
        }
    };
}
presets! {
    // phase0
    MAX_COMMITTEES_PER_SLOT = 64, 4;
    TARGET_COMMITTEE_SIZE = 128, 4;
    MAX_VALIDATORS_PER_COMMITTEE = 2048, 2048;
    SHUFFLE_ROUND_COUNT = 90, 10;
    HYSTERESIS_QUOTIENT = 4, 4;
    HYSTERESIS_DOWNWARD_MULTIPLIER = 1, 1;
    HYSTERESIS_UPWARD_MULTIPLIER = 5, 5;
    MIN_DEPOSIT_AMOUNT = 1_000_000_000, 1_000_000_000;
    MAX_EFFECTIVE_BALANCE = 32_000_000_000, 32_000_000_000;
    EFFECTIVE_BALANCE_INCREMENT = 1_000_000_000, 1_000_000_000;
    MIN_ATTESTATION_INCLUSION_DELAY = 1, 1;
    SLOTS_PER_EPOCH = 32, 8;
    MIN_SEED_LOOKAHEAD = 1, 1;
    MAX_SEED_LOOKAHEAD = 4, 4;
    MIN_EPOCHS_TO_INACTIVITY_PENALTY = 4, 4;
    EPOCHS_PER_ETH1_VOTING_PERIOD = 64, 4;
    SLOTS_PER_HISTORICAL_ROOT = 8192, 64;
    EPOCHS_PER_HISTORICAL_VECTOR = 65536, 64;
    EPOCHS_PER_SLASHINGS_VECTOR = 8192, 64;
    HISTORICAL_ROOTS_LIMIT = 16777216, 16777216;
    VALIDATOR_REGISTRY_LIMIT = 1099511627776, 1099511627776;
    BASE_REWARD_FACTOR = 64, 64;
    WHISTLEBLOWER_REWARD_QUOTIENT = 512, 512;
    PROPOSER_REWARD_QUOTIENT = 8, 8;
    INACTIVITY_PENALTY_QUOTIENT = 67108864, 33554432;
    MIN_SLASHING_PENALTY_QUOTIENT = 128, 64;
    PROPORTIONAL_SLASHING_MULTIPLIER = 1, 2;
    MAX_PROPOSER_SLASHINGS = 16, 16;
    MAX_ATTESTER_SLASHINGS = 2, 2;
    MAX_ATTESTATIONS = 128, 128;
    MAX_DEPOSITS = 16, 16;
    MAX_VOLUNTARY_EXITS = 16, 16;
    // altair
    INACTIVITY_PENALTY_QUOTIENT_ALTAIR = 50331648, 50331648;
    MIN_SLASHING_PENALTY_QUOTIENT_ALTAIR = 64, 64;
    PROPORTIONAL_SLASHING_MULTIPLIER_ALTAIR = 2, 2;
    SYNC_COMMITTEE_SIZE = 512, 32;
    EPOCHS_PER_SYNC_COMMITTEE_PERIOD = 256, 8;
    MIN_SYNC_COMMITTEE_PARTICIPANTS = 1, 1;
    UPDATE_TIMEOUT = 8192, 64;
    // bellatrix
    INACTIVITY_PENALTY_QUOTIENT_BELLATRIX = 16777216, 16777216;
    MIN_SLASHING_PENALTY_QUOTIENT_BELLATRIX = 32, 32;
    PROPORTIONAL_SLASHING_MULTIPLIER_BELLATRIX = 3, 3;
    MAX_BYTES_PER_TRANSACTION = 1073741824, 1073741824;
    MAX_TRANSACTIONS_PER_PAYLOAD = 1048576, 1048576;
    BYTES_PER_LOGS_BLOOM = 256, 256;
    MAX_EXTRA_DATA_BYTES = 32, 32;
    // capella
    MAX_BLS_TO_EXECUTION_CHANGES = 16, 16;
    MAX_WITHDRAWALS_PER_PAYLOAD = 16, 4;
    MAX_VALIDATORS_PER_WITHDRAWALS_SWEEP = 16384, 16;
    // deneb
    FIELD_ELEMENTS_PER_BLOB = 4096, 4096;
    MAX_BLOB_COMMITMENTS_PER_BLOCK = 4096, 16;
    MAX_BLOBS_PER_BLOCK = 6, 6;
    KZG_COMMITMENT_INCLUSION_PROOF_DEPTH = 17, 9;
    // electra (v1.5.0-alpha.2)
    MIN_ACTIVATION_BALANCE = 32_000_000_000, 32_000_000_000;
    MAX_EFFECTIVE_BALANCE_ELECTRA = 2048_000_000_000, 2048_000_000_000;
    MIN_SLASHING_PENALTY_QUOTIENT_ELECTRA = 4096, 4096;
    WHISTLEBLOWER_REWARD_QUOTIENT_ELECTRA = 4096, 4096;
    PENDING_BALANCE_DEPOSITS_LIMIT = 134217728, 134217728;
    PENDING_PARTIAL_WITHDRAWALS_LIMIT = 134217728, 64;
    PENDING_CONSOLIDATIONS_LIMIT = 262144, 64;
    MAX_ATTESTER_SLASHINGS_ELECTRA = 1, 1;
    MAX_ATTESTATIONS_ELECTRA = 8, 8;
    MAX_CONSOLIDATIONS = 1, 1;
    MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD = 8192, 4;
    MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD = 16, 2;
    MAX_PENDING_PARTIALS_PER_WITHDRAWALS_SWEEP = 8, 1;
}

/// Run-time configuration
#[allow(non_snake_case)]
#[derive(Clone, Debug)]
pub struct Cfg {
    pub preset: Preset,
    pub k: Consts,
    pub MIN_GENESIS_ACTIVE_VALIDATOR_COUNT: u64,
    pub MIN_GENESIS_TIME: u64,
    pub GENESIS_DELAY: u64,
    pub FORK_VERSIONS: [[u8; 4]; 6],
    pub FORK_EPOCHS: [u64; 6],
    pub SECONDS_PER_SLOT: u64,
    pub MIN_VALIDATOR_WITHDRAWABILITY_DELAY: u64,
    pub SHARD_COMMITTEE_PERIOD: u64,
    pub INACTIVITY_SCORE_BIAS: u64,
    pub INACTIVITY_SCORE_RECOVERY_RATE: u64,
    pub EJECTION_BALANCE: u64,
    pub MIN_PER_EPOCH_CHURN_LIMIT: u64,
    pub MAX_PER_EPOCH_ACTIVATION_CHURN_LIMIT: u64,
    pub MIN_PER_EPOCH_CHURN_LIMIT_ELECTRA: u64,
    pub MAX_PER_EPOCH_ACTIVATION_EXIT_CHURN_LIMIT: u64,
    pub CHURN_LIMIT_QUOTIENT: u64,
    pub engine: bool,
}
impl Cfg {
    pub fn minimal() -> Cfg {
        Cfg {
            preset: Minimal,
            k: consts(Minimal),
            MIN_GENESIS_ACTIVE_VALIDATOR_COUNT: 64,
            MIN_GENESIS_TIME: 1578009600,
            GENESIS_DELAY: 300,
            FORK_VERSIONS: [[0, 0, 0, 1], [1, 0, 0, 1], [2, 0, 0, 1], [3, 0, 0, 1], [4, 0, 0, 1], [5, 0, 0, 1]],
            FORK_EPOCHS: [0, FAR_FUTURE, FAR_FUTURE, FAR_FUTURE, FAR_FUTURE, FAR_FUTURE],
            SECONDS_PER_SLOT: 6,
            MIN_VALIDATOR_WITHDRAWABILITY_DELAY: 256,
            SHARD_COMMITTEE_PERIOD: 64,
            INACTIVITY_SCORE_BIAS: 4,
            INACTIVITY_SCORE_RECOVERY_RATE: 16,
            EJECTION_BALANCE: 16 * GWEI,
            MIN_PER_EPOCH_CHURN_LIMIT: 2,
            MAX_PER_EPOCH_ACTIVATION_CHURN_LIMIT: 4,
            MIN_PER_EPOCH_CHURN_LIMIT_ELECTRA: 64 * GWEI,
            MAX_PER_EPOCH_ACTIVATION_EXIT_CHURN_LIMIT: 128 * GWEI,
            CHURN_LIMIT_QUOTIENT: 32,
            engine: true,
        }
    }
    pub fn mainnet() -> Cfg {
        Cfg {
            preset: Mainnet,
            k: consts(Mainnet),
            MIN_GENESIS_ACTIVE_VALIDATOR_COUNT: 16384,
            MIN_GENESIS_TIME: 1606824000,
            GENESIS_DELAY: 604800,
            FORK_VERSIONS: [[0, 0, 0, 0], [1, 0, 0, 0], [2, 0, 0, 0], [3, 0, 0, 0], [4, 0, 0, 0], [5, 0, 0, 0]],
            FORK_EPOCHS: [0, 74240, 144896, 194048, 269568, FAR_FUTURE],
            SECONDS_PER_SLOT: 12,
            MIN_VALIDATOR_WITHDRAWABILITY_DELAY: 256,
            SHARD_COMMITTEE_PERIOD: 256,
            INACTIVITY_SCORE_BIAS: 4,
            INACTIVITY_SCORE_RECOVERY_RATE: 16,
            EJECTION_BALANCE: 16 * GWEI,
            MIN_PER_EPOCH_CHURN_LIMIT: 4,
            MAX_PER_EPOCH_ACTIVATION_CHURN_LIMIT: 8,
            MIN_PER_EPOCH_CHURN_LIMIT_ELECTRA: 128 * GWEI,
            MAX_PER_EPOCH_ACTIVATION_EXIT_CHURN_LIMIT: 256 * GWEI,
            CHURN_LIMIT_QUOTIENT: 65536,
            engine: true,
        }
    }
}

//! every consensus container of /repo behind one interface: its SSZ and JSON forms by fork, preset and name
use crate::*;

pub struct Codec {
    pub fork: Fork,
    pub preset: Preset,
    pub name: &'static str,
    /// read SSZ, then write it and hash it
    pub ssz: fn(&[u8]) -> Got<(Vec<u8>, H)>,
    /// read SSZ and write JSON
    pub to_json: Option<fn(&[u8]) -> Got<String>>,
    /// read JSON and write SSZ
    pub from_json: Option<fn(&str) -> Got<Vec<u8>>>,
    /// read a JSON tree and write SSZ
    pub from_tree: Option<fn(serde_json::Value) -> Got<Vec<u8>>>,
    /// the default value in SSZ
    pub zero: fn() -> Got<Vec<u8>>,
}
pub fn settle<T>(f: impl FnOnce() -> Result<T, String>) -> Got<T> {
    match guard(f) {
        Ok(Ok(x)) => Got::Ok(x),
        Ok(Err(e)) => Got::Err(e),
        Err(p) => Got::Panic(p),
    }
}
fn bytes<T: ssz_rs::Serialize>(x: &T) -> Result<Vec<u8>, String> {
    let mut b = vec![];
    x.serialize(&mut b).map_err(|e| format!("{e:?}"))?;
    Ok(b)
}
pub fn ssz<T: ssz_rs::Serialize + ssz_rs::Deserialize + ssz_rs::HashTreeRoot>(b: &[u8]) -> Got<(Vec<u8>, H)> {
    settle(|| {
        let x = T::deserialize(b).map_err(|e| format!("{e:?}"))?;
        let r = x.hash_tree_root().map_err(|e| format!("{e:?}"))?;
        let mut h = [0; 32];
        h.copy_from_slice(r.as_ref());
        Ok((bytes(&x)?, h))
    })
}
pub fn to_json<T: ssz_rs::Deserialize + serde::Serialize>(b: &[u8]) -> Got<String> {
    settle(|| {
        let x = T::deserialize(b).map_err(|e| format!("{e:?}"))?;
        serde_json::to_string(&x).map_err(|e| format!("{e:?}"))
    })
}
pub fn from_json<T: ssz_rs::Serialize + serde::de::DeserializeOwned>(s: &str) -> Got<Vec<u8>> {
    settle(|| {
        let x: T = serde_json::from_str(s).map_err(|e| format!("{e}"))?;
        bytes(&x)
    })
}
pub fn from_tree<T: ssz_rs::Serialize + serde::de::DeserializeOwned>(v: serde_json::Value) -> Got<Vec<u8>> {
    settle(|| {
        let x: T = serde_json::from_value(v).map_err(|e| format!("{e}"))?;
        bytes(&x)
    })
}
pub fn zero<T: ssz_rs::Serialize + Default>() -> Got<Vec<u8>> {
    settle(|| bytes(&T::default()))
}
macro_rules! one {
    ($out:ident, $f:expr, $p:expr, $name:expr, $t:ty) => {
        $out.push(Codec { fork: $f, preset: $p, name: $name, ssz: ssz::<$t>, to_json: Some(to_json::<$t>), from_json: Some(from_json::<$t>), from_tree: Some(from_tree::<$t>), zero: zero::<$t> })
    };
}
macro_rules! fork {
    ($out:ident, $F:ident $m:ident, [$($X:ident $(= $T:ident)?)*]) => {
        $( fork!(@one $out, $F $m, $X, $($T,)? $X); )*
    };
    (@one $out:ident, $F:ident $m:ident, $X:ident, $T:ident $(, $r:ident)?) => {{
        one!($out, Fork::$F, Preset::Minimal, stringify!($X), forks_ec::$m::minimal::$T);
        one!($out, Fork::$F, Preset::Mainnet, stringify!($X), forks_ec::$m::mainnet::$T);
    }};
}
pub fn all() -> Vec<Codec> {
    let mut v = vec![];
    fork!(v, Phase0 phase0, [Fork ForkData Checkpoint Validator AttestationData IndexedAttestation PendingAttestation Eth1Data HistoricalBatch HistoricalSummary DepositMessage DepositData BeaconBlockHeader AttesterSlashing ProposerSlashing SignedBeaconBlockHeader Attestation Deposit VoluntaryExit SignedVoluntaryExit BeaconBlockBody BeaconBlock SignedBeaconBlock Eth1Block AggregateAndProof SignedAggregateAndProof BeaconState]);
    fork!(v, Altair altair, [SyncAggregate SyncCommittee BeaconBlockBody BeaconBlock SignedBeaconBlock BeaconState SyncCommitteeMessage SyncCommitteeContribution ContributionAndProof SignedContributionAndProof SyncAggregatorSelectionData LightClientHeader LightClientBootstrap LightClientUpdate LightClientFinalityUpdate LightClientOptimisticUpdate]);
    fork!(v, Bellatrix bellatrix, [PowBlock ExecutionPayload ExecutionPayloadHeader BeaconBlockBody BeaconBlock SignedBeaconBlock BlindedBeaconBlockBody BlindedBeaconBlock SignedBlindedBeaconBlock BeaconState]);
    fork!(v, Capella capella, [Withdrawal BLSToExecutionChange = BlsToExecutionChange SignedBLSToExecutionChange = SignedBlsToExecutionChange ExecutionPayload ExecutionPayloadHeader BeaconBlockBody BeaconBlock SignedBeaconBlock BlindedBeaconBlockBody BlindedBeaconBlock SignedBlindedBeaconBlock BeaconState LightClientHeader LightClientBootstrap LightClientUpdate LightClientFinalityUpdate LightClientOptimisticUpdate]);
    fork!(v, Deneb deneb, [ExecutionPayload ExecutionPayloadHeader BeaconBlockBody BeaconBlock SignedBeaconBlock BlindedBeaconBlockBody BlindedBeaconBlock SignedBlindedBeaconBlock BeaconState BlobIdentifier BlobSidecar LightClientHeader LightClientBootstrap LightClientUpdate LightClientFinalityUpdate LightClientOptimisticUpdate]);
    fork!(v, Electra electra, [DepositReceipt PendingBalanceDeposit PendingPartialWithdrawal PendingConsolidation ExecutionLayerWithdrawalRequest Consolidation SignedConsolidation IndexedAttestation AttesterSlashing Attestation ExecutionPayload ExecutionPayloadHeader BeaconBlockBody BeaconBlock SignedBeaconBlock BeaconState]);
    for p in [Preset::Minimal, Preset::Mainnet] {
        v.push(Codec { fork: Phase0, preset: p, name: "SigningData", ssz: ssz::<ec::signing::SigningData>, to_json: None, from_json: None, from_tree: None, zero: zero::<ec::signing::SigningData> });
        one!(v, Phase0, p, "ValidatorRegistration", ec::builder::ValidatorRegistration);
        one!(v, Phase0, p, "SignedValidatorRegistration", ec::builder::SignedValidatorRegistration);
    }
    v
}

import json
S='ethereum-consensus/src/'
forks=['phase0','altair','bellatrix','capella','deneb','electra']
specs=[S+f'{f}/spec/mod.rs' for f in forks]
P=[]
def p(id,title,st,over,text,why,files,mech,obs=None,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if obs: a['observe_at']=obs
    a['hook_needed']=None
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
NOT="The repository's stable tests are five clock, formatting and generator comparisons; none of them runs this code, and the upstream example vectors (not present) sample a fixed handful of states."
p('C01','Slot advance records history and composes',
 "For every fork, advancing a beacon state to a later slot records the pre-slot state root and latest block root at that slot's place in the two circular histories, fills in the latest block header's state root exactly when it is still empty, and runs the end-of-epoch transition exactly when an epoch boundary is crossed. Advancing to a slot that is not later than the current one is refused. After slot 0 a recorded block root reads back for exactly the slots, and the first slots of epochs, of the recorded past; any other is refused. Advancing from A to C in one call gives the same state as advancing from A to B and then from B to C.",
 ['inputs','histories'],'all six forks, all consensus states of the preset, all start and target slots, all ways of splitting the advance',NOT,
 [S+'phase0/slot_processing.rs']+specs,[('process_slots / process_slot',S+'phase0/slot_processing.rs and its copy in every fork spec module'),('get_block_root_at_slot',S+'phase0/helpers.rs')],['process_slots, process_slot'],
 [('state_roots, block_roots','circular histories of roots','*/beacon_state.rs')])
p('C02','Justification and finality follow attested supermajorities',
 "At the end of every epoch after the first two, a checkpoint of the previous or current epoch becomes justified exactly when unslashed active validators holding at least two thirds of the total active balance attested to it as target, and a previously justified checkpoint becomes finalized exactly when the protocol's two-, three- and four-epoch rules over the justification history allow it. Otherwise both checkpoints keep their values, and the justification history shifts by one epoch.",
 ['inputs','histories'],'all forks; all validator registries, participation records, justification bit patterns and checkpoint combinations',NOT,
 [S+'phase0/epoch_processing.rs',S+'altair/epoch_processing.rs']+specs,[('process_justification_and_finalization',S+'phase0/epoch_processing.rs, altair/epoch_processing.rs'),('weigh_justification_and_finalization',S+'phase0/epoch_processing.rs'),('get_unslashed_participating_indices',S+'altair/helpers.rs')],['state after process_justification_and_finalization and process_epoch'])
p('C03','Epoch rewards, penalties and inactivity leak follow the spec',
 "At every epoch boundary each validator's balance changes by exactly the attestation rewards and penalties that its participation, effective balance and the finality delay earn under the rules of the active fork, including inclusion and proposer rewards, the inactivity leak and inactivity scores, and no validator's balance goes below zero. Validators that were not eligible in the previous epoch are untouched.",
 ['inputs'],'all forks; all registries, participation records, inactivity scores and finality delays',NOT,
 [S+'phase0/epoch_processing.rs',S+'altair/epoch_processing.rs',S+'altair/helpers.rs',S+'bellatrix/helpers.rs']+specs,[('process_rewards_and_penalties',S+'phase0/epoch_processing.rs, altair/epoch_processing.rs'),('get_flag_index_deltas, get_inactivity_penalty_deltas',S+'altair/helpers.rs, bellatrix/helpers.rs'),('process_inactivity_updates',S+'altair/epoch_processing.rs'),('get_attestation_deltas',S+'phase0/epoch_processing.rs')],['balances, inactivity_scores'])
p('C04','Validator lifecycle: eligibility, activation queue, churn, exit',
 "At every epoch boundary validators become eligible for activation, are activated and are ejected exactly as the protocol prescribes: activation needs finalized eligibility, is ordered by eligibility epoch and then index, and no epoch admits more activations or exits than the churn limit of the fork allows (per validator count before Electra, per balance from Electra on). A validator's exit and withdrawable epochs are set once, never moved, and are always the delays the protocol prescribes.",
 ['inputs','histories'],'all forks; all registries, exit queues, finalized epochs and churn states',NOT,
 [S+'phase0/epoch_processing.rs',S+'deneb/epoch_processing.rs',S+'electra/epoch_processing.rs',S+'electra/helpers.rs',S+'phase0/helpers.rs']+specs,[('process_registry_updates',S+'phase0, deneb, electra epoch_processing.rs'),('initiate_validator_exit',S+'phase0/helpers.rs, electra/helpers.rs'),('get_validator_churn_limit, get_validator_activation_churn_limit, get_balance_churn_limit',S+'phase0, deneb, electra helpers.rs'),('compute_exit_epoch_and_update_churn',S+'electra/helpers.rs')],['validators, exit churn fields'])
p('C05','End-of-epoch slashing penalties, hysteresis, resets and rotations',
 "At every epoch boundary correlated slashing penalties, effective-balance hysteresis, pending deposits and consolidations, the reset of old votes, slashing totals and randao slots, the historical accumulator, the rotation of participation records and the rotation of sync committees all produce exactly the state the fork's rules prescribe, each on its own period. The whole end-of-epoch transition performs these steps in the prescribed order and changes nothing else.",
 ['inputs','histories'],'all forks; all states placed at or around each period boundary',NOT,
 [S+'phase0/epoch_processing.rs',S+'altair/epoch_processing.rs',S+'bellatrix/epoch_processing.rs',S+'capella/epoch_processing.rs',S+'deneb/epoch_processing.rs',S+'electra/epoch_processing.rs']+specs,[('process_epoch','every fork'),('process_slashings',S+'phase0, altair, bellatrix epoch_processing.rs'),('process_effective_balance_updates',S+'phase0, electra epoch_processing.rs'),('process_pending_balance_deposits, process_pending_consolidations',S+'electra/epoch_processing.rs'),('process_sync_committee_updates',S+'altair/epoch_processing.rs'),('process_historical_summaries_update',S+'capella/epoch_processing.rs')],['whole state after process_epoch'])
p('C06','Block header, randao and eth1 vote processing',
 "A block's header is accepted exactly when its slot is the state's slot, is later than the latest header, its proposer is the slot's designated unslashed proposer and its parent is the latest header; acceptance caches the header with an empty state root. The randao reveal is accepted exactly when it is the proposer's valid signature over the current epoch, and is mixed into the current epoch's randao. An eth1 vote is recorded, and adopted exactly when its identical votes in the voting period exceed half of the period's slots.",
 ['inputs','histories'],'all forks; all states, headers, reveals and vote histories, valid and mutated',NOT,
 [S+'phase0/block_processing.rs']+specs,[('process_block_header, process_randao, process_eth1_data',S+'phase0/block_processing.rs and every fork spec module')],['latest_block_header, randao_mixes, eth1_data, eth1_data_votes'])
p('C07','Attestation acceptance and participation credit',
 "An attestation is accepted exactly when its target, committee index, inclusion delay, source checkpoint, bit count and aggregate signature satisfy the rules of the active fork, and is otherwise rejected with an error. An accepted attestation credits exactly the attesting validators with exactly the flags (or a pending record) its timeliness and correctness earn, never removes credit, and pays the proposer the prescribed reward once per newly credited validator.",
 ['inputs'],'all forks; all states and attestations, valid or with any field, bit or signature altered',NOT,
 [S+'phase0/block_processing.rs',S+'altair/block_processing.rs',S+'deneb/block_processing.rs',S+'electra/block_processing.rs',S+'electra/helpers.rs']+specs,[('process_attestation',S+'phase0, altair, deneb, electra block_processing.rs'),('get_attestation_participation_flag_indices',S+'altair/helpers.rs, deneb/helpers.rs'),('get_attesting_indices',S+'phase0/helpers.rs, electra/helpers.rs'),('is_valid_indexed_attestation',S+'phase0/helpers.rs')],['participation records, balances'])
p('C08','Slashing: only provable offences, exact effects',
 "A proposer slashing is accepted exactly when it proves with valid signatures that a slashable validator signed two different headers for one slot; an attester slashing exactly when it proves a double or surround vote by at least one slashable validator. Acceptance slashes exactly the provable offenders: exit initiated, withdrawal delayed by the slashing period, slashing total raised, the fork's penalty taken, and the fork's rewards paid to proposer and whistleblower.",
 ['inputs'],'all forks; all states and slashings, valid or mutated',NOT,
 [S+'phase0/block_processing.rs',S+'phase0/helpers.rs',S+'altair/helpers.rs',S+'bellatrix/helpers.rs',S+'electra/block_processing.rs',S+'electra/helpers.rs']+specs,[('process_proposer_slashing, process_attester_slashing',S+'phase0/block_processing.rs'),('slash_validator',S+'phase0, altair, bellatrix, electra helpers.rs'),('is_slashable_attestation_data',S+'phase0/helpers.rs')],['validators, balances, slashings'])
p('C09','Deposits are credited once, only with a valid inclusion proof',
 "A deposit is accepted only with a Merkle branch proving it at the next deposit index under the recorded deposit root, and acceptance advances that index by one. A deposit for a known key tops up that validator; a deposit for a new key adds a validator with the prescribed credentials, effective balance and per-validator records when its signature over the deposit domain is valid, and is otherwise ignored without failing the block. A block must carry exactly the outstanding deposits up to the per-block maximum.",
 ['inputs','histories'],'all forks; all deposit trees, indices, keys, amounts and signatures',NOT,
 [S+'phase0/block_processing.rs',S+'altair/block_processing.rs',S+'electra/block_processing.rs']+specs,[('process_deposit, apply_deposit, add_validator_to_registry',S+'phase0, altair, electra block_processing.rs'),('process_operations deposit count',S+'phase0, capella, electra block_processing.rs')],['validators, balances, eth1_deposit_index, pending_balance_deposits'])
p('C10','Voluntary exits: only mature active validators, exact queue',
 "A voluntary exit is accepted exactly when the validator is active, is not already exiting, the exit's epoch has come, the validator has been active for the minimum service period, and the signature is the validator's under the domain the fork prescribes (from Deneb on, the frozen Capella domain; from Electra on, also no pending withdrawal). Acceptance schedules the exit at the epoch the churn-limited exit queue prescribes and touches no other validator.",
 ['inputs'],'all forks; all states and exits, valid or mutated',NOT,
 [S+'phase0/block_processing.rs',S+'deneb/block_processing.rs',S+'electra/block_processing.rs',S+'phase0/helpers.rs',S+'electra/helpers.rs']+specs,[('process_voluntary_exit',S+'phase0, deneb, electra block_processing.rs'),('initiate_validator_exit',S+'phase0/helpers.rs, electra/helpers.rs')],['validators'])
p('C11','Sync aggregates: signature, rewards and committee selection',
 "A sync aggregate is accepted exactly when its signature is the participating current-committee members' aggregate over the previous slot's block root under that slot's domain, an empty participation being accepted only with the infinity signature. Acceptance rewards each participating seat and the proposer and penalises each absent seat by the prescribed amounts, seat by seat, never below zero. The next committee is sampled by effective balance from the prescribed seed, with an aggregate key equal to the sum of its members' keys.",
 ['inputs'],'all forks from Altair on; all registries, committees (with repeated members), participation bits and signatures',NOT,
 [S+'altair/block_processing.rs',S+'altair/helpers.rs',S+'electra/helpers.rs',S+'crypto/bls.rs']+specs[1:],[('process_sync_aggregate',S+'altair/block_processing.rs'),('get_next_sync_committee_indices, get_next_sync_committee',S+'altair/helpers.rs, electra'),('eth_fast_aggregate_verify',S+'crypto/bls.rs')],['balances, next_sync_committee'])
p('C12','Execution payloads, withdrawals and credential changes',
 "An execution payload is accepted exactly when its parent hash, randao, timestamp and blob count match the state and the execution engine accepts it, and the state then caches exactly the header that commits to it. The payload's withdrawals must equal the protocol's sweep (and, from Electra, pending partial withdrawals), and processing them debits exactly those balances and advances the withdrawal counters. A credential change is accepted exactly when the validator's key-based credential hash and signature match, and then sets the execution address.",
 ['inputs','histories'],'Bellatrix to Electra; all states, payloads, withdrawal cursors and credential changes, valid or mutated',NOT,
 [S+'bellatrix/block_processing.rs',S+'capella/block_processing.rs',S+'deneb/block_processing.rs',S+'electra/block_processing.rs',S+'bellatrix/execution_payload.rs',S+'capella/execution_payload.rs',S+'deneb/execution_payload.rs',S+'electra/execution_payload.rs']+specs[2:],[('process_execution_payload','bellatrix to electra block_processing.rs'),('process_withdrawals, get_expected_withdrawals',S+'capella, electra block_processing.rs'),('process_bls_to_execution_change',S+'capella/block_processing.rs'),('TryFrom payload for header','*/execution_payload.rs')],['latest_execution_payload_header, balances, next_withdrawal_index, next_withdrawal_validator_index'])
p('C13','Execution-triggered requests: deposits, withdrawals, consolidations',
 "From Electra on, a deposit receipt queues exactly its amount (or a new validator) and fixes the receipt start index once; an execution-layer withdrawal request has an effect exactly when its sender owns the validator and the validator is eligible, and is otherwise ignored without failing the block; a consolidation is accepted exactly when its conditions and both signatures hold. Balance-based exit and consolidation churn is charged so that no epoch exceeds its limit, and pending work is queued at the epoch the churn prescribes.",
 ['inputs','histories'],'all Electra states and requests, valid or mutated, in any sequence',NOT,
 [S+'electra/block_processing.rs',S+'electra/helpers.rs',S+'electra/spec/mod.rs'],[('process_deposit_receipt, process_execution_layer_withdrawal_request, process_consolidation',S+'electra/block_processing.rs'),('compute_exit_epoch_and_update_churn, compute_consolidation_epoch_and_update_churn, switch_to_compounding_validator, queue_excess_active_balance',S+'electra/helpers.rs')],['pending queues, churn fields, validators'])
p('C14','Signed blocks: accepted exactly when fully valid',
 "Applying a signed block to a state succeeds exactly when the block's slot is reachable, its proposer's signature, every included operation and its claimed state root are all valid, and then yields the post-state the protocol prescribes, whose root is the claimed one. With validation switched off, only the proposer-signature and state-root checks are skipped. No block content makes the transition panic: an invalid block is reported as an error.",
 ['inputs','histories'],'all forks; chains of valid blocks carrying operations, with skipped slots, and single-field mutations of them',NOT,
 [S+'phase0/state_transition.rs',S+'bellatrix/state_transition.rs',S+'phase0/block_processing.rs',S+'altair/block_processing.rs',S+'bellatrix/block_processing.rs',S+'capella/block_processing.rs',S+'deneb/block_processing.rs',S+'electra/block_processing.rs']+specs,[('state_transition, state_transition_block_in_slot, verify_block_signature','every fork spec module'),('process_block, process_operations','every fork')],['result and post-state of state_transition'])
p('C15','Shuffling, committees and proposers are fair partitions of the active set',
 "For every seed and list length the swap-or-not shuffle is a permutation, and shuffling a whole list agrees with shuffling each index, whichever implementation is compiled in. In every epoch the beacon committees of all slots partition the active validators, each appearing exactly once, with the prescribed count and sizes, and the proposer of a slot is the active validator the protocol's balance-weighted sampling selects. Committees and proposers depend only on the epoch's seed and the active set.",
 ['inputs','configurations'],'all seeds, list lengths, round counts, registries, slots and committee indices, both shuffling implementations',NOT,
 [S+'phase0/helpers.rs']+specs,[('compute_shuffled_index, compute_shuffled_indices',S+'phase0/helpers.rs'),('compute_committee, get_beacon_committee, get_committee_count_per_slot',S+'phase0/helpers.rs'),('compute_proposer_index, sample_proposer_index, get_beacon_proposer_index, get_seed',S+'phase0/helpers.rs')])
p('C16','Fork upgrades preserve the state and initialise new fields',
 "Upgrading a state to the next fork carries every field that exists in both forks unchanged, sets the fork record to the new version and current epoch, translates pending attestations into participation, and gives every new field the value the protocol prescribes. The upgrade succeeds for every valid state of the previous fork.",
 ['inputs'],'the five upgrades; all states of the older fork',NOT,
 [S+'altair/fork.rs',S+'bellatrix/fork.rs',S+'capella/fork.rs',S+'deneb/fork.rs',S+'electra/fork.rs'],[('upgrade_to_altair/bellatrix/capella/deneb/electra',S+'*/fork.rs'),('translate_participation',S+'altair/fork.rs')])
p('C17','The fork-aware executor equals the per-fork rules plus upgrades',
 "Driving a multi-fork chain through the executor gives, block by block, the same result as applying each block under the rules of the fork its slot belongs to, with each upgrade performed once, at the first slot of its fork epoch, even when that slot or whole epochs hold no block. The executor never applies a block to a state of another fork, and reports an error instead of skipping an upgrade.",
 ['histories','configurations'],'all fork schedules with increasing fork epochs, all chains with skipped slots across the boundaries, all starting forks',NOT,
 [S+'state_transition/executor.rs',S+'state_transition/mod.rs'],[('Executor::apply_block and apply_*_block',S+'state_transition/executor.rs'),('upgrade_to_*',S+'*/fork.rs')])
p('C18','Genesis is a pure function of the deposits',
 "From any list of deposits that activates at least one validator the genesis state holds exactly the validators the deposits prove, with those at the full effective balance active at genesis, the fork versions, genesis time, header, randao, validators root, sync committees and execution header the fork prescribes. It is reported valid exactly when its time and active-validator count reach the configured minimums.",
 ['inputs','configurations'],'all forks; all deposit lists (new keys, top-ups, invalid signatures, small amounts), timestamps and optional execution headers',NOT,
 [S+f'{f}/genesis.rs' for f in forks],[('initialize_beacon_state_from_eth1, is_valid_genesis_state, get_genesis_block','*/genesis.rs')])
p('C19','SSZ: schema, roots and round trips of every container',
 "Every consensus container of every fork and preset serializes to exactly the bytes, and hashes to exactly the root, that its schema in the consensus specification defines, and deserializing those bytes gives back an equal value. Bytes that are not the unique encoding of some value are rejected without a panic.",
 ['inputs','configurations'],'all containers, forks and presets; all values within their limits; all mutations and truncations of encodings',NOT,
 [S+f'{f}/{m}.rs' for f in forks for m in ('beacon_state','beacon_block')]+[S+'phase0/operations.rs',S+'ssz/byte_list.rs',S+'ssz/byte_vector.rs',S+'electra/operations.rs',S+'deneb/blob_sidecar.rs'],[('SimpleSerialize derives and field order','every container'),('ByteVector, ByteList',S+'ssz'),('list bounds','*/presets')])
p('C20','JSON of consensus containers follows the API encoding and round-trips',
 "Every consensus container serializes to JSON with 64-bit integers as decimal strings, byte strings as 0x-prefixed hex, bitfields as the hex of their encoding and the field names of the specification, and reading that JSON back gives an equal value. JSON with a missing field, a wrong length, a bad digit or an over-long list is refused without a panic.",
 ['inputs','configurations'],'all containers, forks and presets; all values; mutated JSON',NOT,
 [S+'serde.rs',S+'ssz/byte_list.rs',S+'ssz/byte_vector.rs']+[S+f'{f}/beacon_block.rs' for f in forks],[('as_str, as_hex, seq_of_str, try_bytes_from_hex_str',S+'serde.rs'),('serde derives','every container')])
p('C21','Networks, presets, configs and fork schedule are the published ones',
 "For every supported network and for custom configuration files, the resulting context carries exactly the published preset and configuration values (those of specification v1.5.0-alpha.2 for Electra), and every configuration value written in a file is the value used. A network's name reads back to that network from text and JSON. The fork of an epoch is the latest fork whose activation epoch has come, and the fork versions and genesis data answered for a network are those of its configuration. Unknown or unreadable configurations are reported as errors.",
 ['configurations','inputs'],'all networks, all generated configuration files, all slots and epochs',NOT,
 [S+'configs/mod.rs',S+'configs/mainnet.rs',S+'configs/minimal.rs',S+'configs/goerli.rs',S+'configs/sepolia.rs',S+'configs/holesky.rs',S+'configs/hoodi.rs',S+'state_transition/context.rs',S+'networks.rs']+[S+f'{f}/presets/{x}.rs' for f in forks for x in ('mainnet','minimal')],[('Config, Preset constants',S+'configs, */presets'),('Context::from_config, try_from_file, for_network, fork_for, fork_version_for, fork_activation_epoch',S+'state_transition/context.rs'),('Network parsing and display',S+'networks.rs')])
p('C22','The clock maps time to slots and epochs consistently',
 "For every genesis time and slot duration whose times fit in 64-bit nanoseconds, the clock reports before genesis no slot, and afterwards exactly the slot whose time interval contains the given instant and the epoch that contains that slot. Times of slots, epochs of slots and the duration until the next slot agree with that mapping, and successive slots delivered to a waiting consumer never go backwards.",
 ['inputs','configurations','schedules'],'all genesis times, slot durations, epoch lengths and instants around slot boundaries','The three stable clock tests read the wall clock or one fixed mainnet instant; they cannot cover boundary instants, other configurations or sub-second positions.',
 [S+'clock.rs'],[('SystemClock / Clock: slot_at_time, timestamp_at_slot, epoch_for, duration_until_next_slot, before_genesis',S+'clock.rs'),('SlotStream',S+'clock.rs'),('system time provider',S+'clock.rs')])
p('C23','Domains and signing roots separate every signing purpose',
 "The domain of a message is the four-byte type of its purpose followed by the first 28 bytes of the root of the fork version and genesis validators root, and the signing root is the root of the object's root paired with that domain. The fork version used is the one in force at the message's epoch according to the state's fork record, and different purposes, fork versions or genesis roots never give the same domain.",
 ['inputs'],'all domain types, fork versions, genesis roots, epochs and objects',NOT,
 [S+'domains.rs',S+'signing.rs',S+'phase0/helpers.rs']+specs,[('DomainType constants',S+'domains.rs'),('compute_domain, compute_fork_data_root, compute_fork_digest, get_domain',S+'phase0/helpers.rs and every fork spec module'),('compute_signing_root, sign_with_domain, verify_signed_data',S+'signing.rs')])
p('C24','Hex, integer and fork-name text forms parse and print inversely',
 "Every text helper used for the JSON forms prints lower-case 0x-prefixed hex or decimal digits, reads back exactly what it prints, and refuses anything with an odd number of digits, wrong digits or a value out of range (a missing 0x prefix, leading zeros or a plus sign may be accepted or refused). Byte strings are displayed in full when shorter than four bytes and otherwise by their first and last two bytes. A fork's JSON name reads back to that fork, and unknown names are refused.",
 ['inputs'],'all byte strings, all integers, all fork names, all short texts','The only stable test of this code prints two fixed byte strings; it never parses, and never sees malformed text.',
 [S+'serde.rs',S+'fork.rs',S+'primitives.rs'],[('as_hex, as_str, seq_of_str, try_bytes_from_hex_str, fmt',S+'serde.rs'),('Fork / Version names',S+'fork.rs')])
p('C25','BLS keys and signatures: sound verification and aggregation',
 "A signature verifies under a public key and message exactly when it was made with the matching secret key over that message; aggregates verify exactly for the multiset of keys and messages that produced them. Malformed, off-curve or infinity keys and malformed signatures are rejected with an error, empty aggregations are refused, and keys and signatures round-trip through bytes, hex text and JSON. Secret keys do not print their value unless the debug feature is on.",
 ['inputs'],'all key sets, messages, aggregates, byte strings and mutations of them',NOT,
 [S+'crypto/bls.rs'],[('SecretKey, PublicKey, Signature, verify_signature, aggregate, aggregate_verify, fast_aggregate_verify, eth_fast_aggregate_verify, eth_aggregate_public_keys',S+'crypto/bls.rs')])
p('C26','Blob commitments, proofs and sidecars',
 "A commitment and proof computed for a blob verify for exactly that blob, alone and in a batch, and any altered blob, commitment, proof, order or count is refused. The versioned hash of a commitment is its hash with the version byte, and a blob sidecar's inclusion proof verifies exactly for the commitment, index and block body it was made for.",
 ['inputs'],'all blobs, commitments, proofs, batches, sidecar indices and bodies, valid and mutated',NOT,
 [S+'crypto/kzg.rs',S+'deneb/blob_sidecar.rs',S+'deneb/helpers.rs'],[('blob_to_kzg_commitment, compute_blob_kzg_proof, verify_blob_kzg_proof(_batch), compute_kzg_proof, verify_kzg_proof',S+'crypto/kzg.rs'),('BlobSidecar::verify_commitment_inclusion_proof',S+'deneb/blob_sidecar.rs'),('kzg_commitment_to_versioned_hash',S+'deneb/helpers.rs')])
p('C27','Fork-agnostic containers show exactly the fork value they wrap',
 "A fork-agnostic state, block, body or payload reports the fork it was built from, its accessors read and write exactly the wrapped fork's fields, a field the fork lacks reads as absent, and conversions to one fork's value succeed only for that fork. Its JSON, hash root and serialized form are those of the wrapped value, and reading JSON picks a fork whose form matches.",
 ['inputs','configurations'],'all forks, presets, container kinds, fields and values',NOT,
 [S+'types/beacon_block.rs',S+'types/beacon_block_body.rs',S+'types/beacon_state.rs',S+'types/blinded_beacon_block.rs',S+'types/blinded_beacon_block_body.rs',S+'types/execution_payload.rs',S+'types/execution_payload_header.rs',S+'types/signed_beacon_block.rs',S+'types/signed_blinded_beacon_block.rs'],[('enum accessors, Ref/RefMut types, TryFrom-style accessors, serde untagged',S+'types')])
p('C28','The spec generator derives each fork from its ancestors',
 "For every set of per-fork sources, the generated module of a fork contains every public item of the fork itself and, for each ancestor item it does not redefine, exactly one copy specialised to the fork's own types, with later definitions overriding earlier ones. The generated type over all forks has one variant for each fork that defines the container and an accessor for each field. Generation is deterministic, and regenerating from unchanged sources changes nothing.",
 ['programs'],'all source trees of the six forks built from the item kinds the generator handles: functions (with lifetimes and single-bound type parameters, no where clauses), constants, containers (a redefined container keeps having const parameters; containers over all forks gain fields and exist in contiguous forks)','The one stable generator test compares fork orderings only; it never generates code.',
 ['spec-gen/src/generator.rs','spec-gen/src/visitors.rs','spec-gen/src/type_generator.rs','spec-gen/src/main.rs'],[('generator::run, Spec merge','spec-gen/src/generator.rs'),('visitors','spec-gen/src/visitors.rs'),('fork enum generation','spec-gen/src/type_generator.rs')])
p('C29','Blob packing loses no byte',
 "Packing any payload into blobs, raw or with length framing, produces field-canonical blobs of the exact blob size from which unpacking returns exactly the payload (raw packing: the payload followed by zero padding). Unpacking rejects a framed stream whose header is missing, of an unknown version or declares more than the stream holds, and text that is no list of blobs, with an error, and never panics; bundling pairs every blob with its own commitment and proof.",
 ['inputs'],'all payload lengths and contents including exact multiples of blob capacity; all blob streams',NOT,
 [S+'bin/ec/blobs/framing.rs',S+'bin/ec/blobs/encode.rs',S+'bin/ec/blobs/decode.rs',S+'bin/ec/blobs/bundler.rs',S+'bin/ec/blobs/command.rs'],[('pack_into_blobs, unpack_from_blobs',S+'bin/ec/blobs/encode.rs, decode.rs'),('sized_header, payload_from_sized',S+'bin/ec/blobs/framing.rs')])
p('C30','Validator keys and keystores derive from the mnemonic alone',
 "Keys derived from a mnemonic and optional passphrase are exactly the standard hierarchical signing and withdrawal keys for each index, the same on every run and for every requested range. A keystore written for a key opens with exactly its password, normalised as the standard prescribes, to exactly that key, and fails with any other; every generated keystore has its own password, salt and initial vector.",
 ['inputs'],'all mnemonics, passphrases, index ranges and passwords',NOT,
 [S+'bin/ec/validator/mnemonic.rs',S+'bin/ec/validator/keys.rs',S+'bin/ec/validator/keystores.rs'],[('seed_to_root_node, recover_from_phrase',S+'bin/ec/validator/mnemonic.rs'),('derive_child, generate',S+'bin/ec/validator/keys.rs'),('encrypt, generate keystores',S+'bin/ec/validator/keystores.rs')])
p('C31','The beacon API client asks for and understands the standard API',
 "Every client call issues exactly the standard's method, path, query and body for its arguments, and yields exactly the data of a conforming response, including versioned, optimistic and finalized envelopes. Error responses surface as the server's error rather than as data, and identifiers and query parameters print to, and parse from, their standard text forms.",
 ['inputs'],'all client calls, arguments and server responses, conforming and malformed; endpoints with or without a base path',NOT,
 ['beacon-api-client/src/api_client.rs','beacon-api-client/src/types.rs','beacon-api-client/src/api_error.rs','beacon-api-client/src/serde.rs','beacon-api-client/src/lib.rs'],[('Client methods','beacon-api-client/src/api_client.rs'),('StateId, BlockId, Value, VersionedValue, PublicKeyOrIndex, ...','beacon-api-client/src/types.rs'),('ApiError, IndexedError','beacon-api-client/src/api_error.rs')])
p('C32','Network identities, duties and builder messages',
 "Peer identifiers print as the base-58 text of their multihash and read back equal from text, bytes and JSON; malformed or unsupported ones are refused. Builder registrations sign under the application-builder domain of the network's genesis fork, and node metadata and duty messages encode as the networking specification prescribes.",
 ['inputs'],'all identifiers, attestation slots and committees, selection proofs, registrations',NOT,
 [S+'networking.rs',S+'phase0/networking.rs',S+'altair/networking.rs',S+'altair/validator.rs',S+'phase0/validator.rs',S+'builder/mod.rs'],[('PeerId, MetaData, Multiaddr',S+'networking.rs'),('compute_subnet_for_attestation and sync subnets',S+'phase0/networking.rs, phase0/validator.rs, altair/validator.rs'),('ValidatorRegistration, SignedValidatorRegistration',S+'builder/mod.rs')])
p('C33','Helper functions answer as the specification on every state',
 "For every fork and every state, each public helper called by itself answers as the specification does: epochs and slots, randao mixes, seeds, domains, active and eligible validators, committees and their number, total balances (never below one increment), churn limits, finality delay and inactivity leak, validator and withdrawal predicates, merge predicates and slot timestamps, the attesters and indexed form of an aggregate (an error when its bits are too few), validity of an indexed attestation, participation sets, base rewards, and rewards and penalties per component. Helpers that change a state (balance increase and decrease, exit initiation, slashing with or without a whistleblower, switch to compounding, queueing of balances, consumption of exit and consolidation churn) have exactly the specified effect on the whole state.",
 ['inputs'],'all forks, states that histories can leave behind, epochs, slots, validators, index sets and aggregates within the helpers\' domains',NOT,
 [S+f'{f}/{m}.rs' for f in ('phase0','altair','bellatrix','capella','deneb','electra') for m in ('helpers','epoch_processing')],[('get_*, compute_*, is_* helpers',S+'*/helpers.rs'),('get_*_deltas, get_base_reward, get_finality_delay',S+'phase0/epoch_processing.rs, altair/helpers.rs'),('slash_validator, initiate_validator_exit, switch_to_compounding_validator, compute_exit_epoch_and_update_churn',S+'*/helpers.rs')])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))

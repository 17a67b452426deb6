// included once per preset, with `P` and `Client`, `Types` in scope
type Of = <Types as Unwrapped>::T;
/// arbitrary JSON of a container
fn val(src: &mut Src, fork: Fork, name: &str) -> Json {
    let t = schema::ty(P, fork, name);
    tree(&gen::value(src, &t, &mut 60), &t)
}
fn vals(src: &mut Src, fork: Fork, name: &str, most: u64) -> Json {
    Json::Array((0..src.below(most + 1)).map(|_| val(src, fork, name)).collect())
}
type Go = Box<dyn FnOnce(Client) -> Result<Json, Error>>;
fn go<T: Serialize + 'static, F: Future<Output = Result<T, Error>>>(f: impl FnOnce(Arc<Client>) -> F + 'static) -> Go {
    Box::new(move |c| now(f(Arc::new(c))).map(|x| serde_json::to_value(&x).unwrap()))
}
pub const N: usize = 62;
pub fn call(src: &mut Src, which: usize) -> (Call, Go) {
    let mut c = Call::default();
    macro_rules! go {
        ($c:ident => $e:expr) => {
            go(move |$c| async move { $e.await })
        };
    }
    // a fork with the types these calls know
    let full = refmodel::cfg::FORKS[src.idx(5)];
    let blind = refmodel::cfg::FORKS[2 + src.idx(3)];
    let g: Go = match which {
        0 => {
            c.get("get_genesis_details", "eth/v1/beacon/genesis").data(
                json!({"genesis_time": u(src), "genesis_validators_root": h(src, 32), "genesis_fork_version": h(src, 4)}),
            );
            go!(c => c.get_genesis_details())
        }
        1 => {
            let (id, t) = state_id(src);
            let r = h(src, 32);
            c.get("get_state_root", format!("eth/v1/beacon/states/{t}/root")).data(json!({"root": r}));
            c.expect = r;
            go!(c => c.get_state_root(id))
        }
        2 => {
            let (id, t) = state_id(src);
            c.get("get_fork", format!("eth/v1/beacon/states/{t}/fork")).data(val(src, Fork::Phase0, "Fork"));
            go!(c => c.get_fork(id))
        }
        3 => {
            let (id, t) = state_id(src);
            let d = json!({
                "previous_justified": val(src, Fork::Phase0, "Checkpoint"),
                "current_justified": val(src, Fork::Phase0, "Checkpoint"),
                "finalized": val(src, Fork::Phase0, "Checkpoint"),
            });
            c.get("get_finality_checkpoints", format!("eth/v1/beacon/states/{t}/finality_checkpoints")).data(d);
            go!(c => c.get_finality_checkpoints(id))
        }
        4 => {
            let (id, t) = state_id(src);
            let (ids, it) = validator_ids(src);
            let mut st = vec![];
            let mut stt = vec![];
            for _ in 0..src.below(4) {
                let (a, b) = status(src, 13);
                st.push(a);
                stt.push(b);
            }
            let d = (0..src.below(4)).map(|_| validator(src, val)).collect();
            c.get("get_validators", format!("eth/v1/beacon/states/{t}/validators")).list("id", it).list("status", stt).data(Json::Array(d));
            go!(c => c.get_validators(id, &ids, &st))
        }
        5 => {
            let (id, t) = state_id(src);
            let (v, vt) = validator_id(src);
            let d = validator(src, val);
            c.get("get_validator", format!("eth/v1/beacon/states/{t}/validators/{vt}")).data(d);
            go!(c => c.get_validator(id, v))
        }
        6 => {
            let (id, t) = state_id(src);
            let (ids, it) = validator_ids(src);
            let d = (0..src.below(4)).map(|_| json!({"index": u(src), "balance": u(src)})).collect();
            c.get("get_balances", format!("eth/v1/beacon/states/{t}/validator_balances")).list("id", it).data(Json::Array(d));
            go!(c => c.get_balances(id, &ids))
        }
        7 => {
            let (id, t) = state_id(src);
            let mut f = CommitteeFilter::default();
            c.get("get_committees", format!("eth/v1/beacon/states/{t}/committees"));
            f.epoch = c.maybe(src, "epoch");
            f.index = c.maybe(src, "index").map(|x| x as usize);
            f.slot = c.maybe(src, "slot");
            let d = (0..src.below(4)).map(|_| json!({"index": u(src), "slot": u(src), "validators": us(src)})).collect();
            c.data(Json::Array(d));
            go!(c => c.get_committees(id, f))
        }
        8 => {
            let (id, t) = state_id(src);
            let d = (0..src.below(4)).map(|_| json!({"index": u(src), "slot": u(src), "validators": us(src)})).collect();
            c.get("get_all_committees", format!("eth/v1/beacon/states/{t}/committees")).data(Json::Array(d));
            go!(c => c.get_all_committees(id))
        }
        9 => {
            let (id, t) = state_id(src);
            c.get("get_sync_committees", format!("eth/v1/beacon/states/{t}/sync_committees"));
            let e = c.maybe(src, "epoch");
            let a: Vec<Json> = (0..src.below(4)).map(|_| us(src)).collect();
            c.data(json!({"validators": us(src), "validator_aggregates": a}));
            go!(c => c.get_sync_committees(id, e))
        }
        10 => {
            let (id, t) = state_id(src);
            let r = h(src, 32);
            c.get("get_randao", format!("eth/v1/beacon/states/{t}/randao"));
            let e = c.maybe(src, "epoch");
            c.data(json!({"randao": r}));
            c.expect = r;
            go!(c => c.get_randao(id, e))
        }
        11..=13 => {
            let d = header(src, val);
            c.get("", "eth/v1/beacon/headers").data(json!([d]));
            c.expect = d;
            match which {
                11 => {
                    c.name = "get_beacon_header_at_head";
                    go!(c => c.get_beacon_header_at_head())
                }
                12 => {
                    c.name = "get_beacon_header_for_slot";
                    let s = src.edgy();
                    c.list("slot", vec![s.to_string()]);
                    go!(c => c.get_beacon_header_for_slot(s))
                }
                _ => {
                    c.name = "get_beacon_header_for_parent_root";
                    let (r, t) = root(src);
                    c.list("parent_root", vec![t]);
                    go!(c => c.get_beacon_header_for_parent_root(r))
                }
            }
        }
        14 => {
            let (id, t) = block_id(src);
            let d = header(src, val);
            c.get("get_beacon_header", format!("eth/v1/beacon/headers/{t}")).data(d);
            go!(c => c.get_beacon_header(id))
        }
        15 => {
            let b = val(src, blind, "SignedBlindedBeaconBlock");
            let x: <Of as ClientTypes>::SignedBlindedBeaconBlock = arg(&b);
            c.post("post_signed_blinded_beacon_block", "eth/v1/beacon/blinded_blocks", b);
            go!(c => c.post_signed_blinded_beacon_block(&x))
        }
        16 => {
            let b = val(src, blind, "SignedBlindedBeaconBlock");
            let x: <Of as ClientTypes>::SignedBlindedBeaconBlock = arg(&b);
            c.post("post_signed_blinded_beacon_block_v2", "eth/v2/beacon/blinded_blocks", b);
            let v = broadcast(src, &mut c);
            c.headers.push(("eth-consensus-version", blind.name().into()));
            go!(c => c.post_signed_blinded_beacon_block_v2(&x, version(blind), v))
        }
        17 => {
            let b = val(src, full, "SignedBeaconBlock");
            let x: <Of as ClientTypes>::SignedBeaconBlock = arg(&b);
            c.post("post_signed_beacon_block", "eth/v1/beacon/blocks", b);
            go!(c => c.post_signed_beacon_block(&x))
        }
        18 => {
            let b = val(src, Fork::Deneb, "SignedBeaconBlock");
            let x: <Of as ClientTypes>::SignedBeaconBlock = arg(&b);
            let n = src.below(3);
            let proofs: Vec<Json> = (0..n).map(|_| h(src, 48)).collect();
            let one = h(src, 131072);
            let blobs: Vec<Json> = (0..n).map(|_| one.clone()).collect();
            let p: Vec<ethereum_consensus::crypto::KzgProof> = arg(&json!(proofs));
            let bl: Vec<<Of as ClientTypes>::Blob> = arg(&json!(blobs));
            c.post("post_signed_beacon_block_v2", "eth/v2/beacon/blocks", json!({"signed_block": b, "kzg_proofs": proofs, "blobs": blobs}));
            let v = broadcast(src, &mut c);
            c.headers.push(("eth-consensus-version", "deneb".into()));
            go(move |c| async move {
                let r = SubmitSignedBeaconBlock { signed_block: &x, kzg_proofs: Some(&p), blobs: Some(&bl) };
                c.post_signed_beacon_block_v2(r, Version::Deneb, v).await
            })
        }
        19 => {
            let (id, t) = block_id(src);
            let d = val(src, full, "SignedBeaconBlock");
            c.get("get_beacon_block", format!("eth/v2/beacon/blocks/{t}")).versioned(full, d);
            go!(c => c.get_beacon_block(id))
        }
        20 => {
            let (id, t) = block_id(src);
            let r = h(src, 32);
            c.get("get_beacon_block_root", format!("eth/v1/beacon/blocks/{t}/root")).data(json!({"root": r}));
            c.expect = r;
            go!(c => c.get_beacon_block_root(id))
        }
        21 => {
            let (id, t) = block_id(src);
            c.get("get_attestations_from_beacon_block", format!("eth/v1/beacon/blocks/{t}/attestations")).data(vals(src, Fork::Phase0, "Attestation", 3));
            go!(c => c.get_attestations_from_beacon_block(id))
        }
        22 => {
            let (id, t) = block_id(src);
            let i: Vec<usize> = (0..src.below(5)).map(|_| src.edgy() as usize).collect();
            let d = vals(src, Fork::Deneb, "BlobSidecar", 1);
            c.get("get_blob_sidecars", format!("eth/v1/beacon/blob_sidecars/{t}")).list("indices", i.iter().map(|i| i.to_string()).collect()).data(d);
            go!(c => c.get_blob_sidecars(id, &i))
        }
        23 => {
            let f: Vec<Json> = (0..src.below(5)).map(|_| h(src, 32)).collect();
            c.get("get_deposit_snapshot", "eth/v1/beacon/deposit_snapshot").data(json!({
                "finalized": f, "deposit_root": h(src, 32), "deposit_count": u(src),
                "execution_block_hash": h(src, 32), "execution_block_height": u(src),
            }));
            go!(c => c.get_deposit_snapshot())
        }
        24 => {
            let (id, t) = block_id(src);
            let d = val(src, blind, "SignedBlindedBeaconBlock");
            c.get("get_blinded_block", format!("eth/v1/beacon/blinded_blocks/{t}")).versioned(blind, d);
            go!(c => c.get_blinded_block(id))
        }
        25 => {
            let (r, t) = root(src);
            let d = val(src, Fork::Altair, "LightClientBootstrap");
            c.get("get_light_client_bootstrap", format!("eth/v1/beacon/light_client/bootstrap/{t}")).versioned(Fork::Altair, d);
            c.version_unused = true;
            go!(c => c.get_light_client_bootstrap(r))
        }
        26 => {
            let (a, b) = (src.edgy(), src.edgy());
            let d: Vec<Json> = (0..src.below(3)).map(|_| val(src, Fork::Altair, "LightClientUpdate")).collect();
            c.get("get_light_client_updates", "eth/v1/beacon/light_client/updates")
                .list("start_period", vec![a.to_string()])
                .list("count", vec![b.to_string()]);
            c.reply = Reply::Array(d.iter().map(|d| json!({"version": "altair", "data": d})).collect());
            c.expect = json!(d);
            go!(c => c.get_light_client_updates(a, b))
        }
        27 => {
            let d = val(src, Fork::Altair, "LightClientFinalityUpdate");
            c.get("get_light_client_finality_update", "eth/v1/beacon/light_client/finality_update").versioned(Fork::Altair, d);
            c.version_unused = true;
            go!(c => c.get_light_client_finality_update())
        }
        28 => {
            let d = val(src, Fork::Altair, "LightClientOptimisticUpdate");
            c.get("get_light_client_optimistic_update", "eth/v1/beacon/light_client/optimistic_update").versioned(Fork::Altair, d);
            c.version_unused = true;
            go!(c => c.get_light_client_optimistic_update())
        }
        29 => {
            c.get("get_attestations_from_pool", "eth/v1/beacon/pool/attestations");
            let s = c.maybe(src, "slot");
            let i = c.maybe(src, "committee_index").map(|x| x as usize);
            c.data(vals(src, Fork::Phase0, "Attestation", 3));
            go!(c => c.get_attestations_from_pool(s, i))
        }
        30 => {
            let b = vals(src, Fork::Phase0, "Attestation", 3);
            let x: Vec<<Of as ClientTypes>::Attestation> = arg(&b);
            c.post("post_attestations", "eth/v1/beacon/pool/attestations", b);
            go!(c => c.post_attestations(&x))
        }
        31 => {
            c.get("get_attester_slashings_from_pool", "eth/v1/beacon/pool/attester_slashings").data(vals(src, Fork::Phase0, "AttesterSlashing", 2));
            go!(c => c.get_attester_slashings_from_pool())
        }
        32 => {
            let b = val(src, Fork::Phase0, "AttesterSlashing");
            let x: <Of as ClientTypes>::AttesterSlashing = arg(&b);
            c.post("post_attester_slashing", "eth/v1/beacon/pool/attester_slashings", b);
            go!(c => c.post_attester_slashing(&x))
        }
        33 => {
            c.get("get_proposer_slashings_from_pool", "eth/v1/beacon/pool/proposer_slashings").data(vals(src, Fork::Phase0, "ProposerSlashing", 2));
            go!(c => c.get_proposer_slashings_from_pool())
        }
        34 => {
            let b = val(src, Fork::Phase0, "ProposerSlashing");
            let x = arg(&b);
            c.post("post_proposer_slashing", "eth/v1/beacon/pool/proposer_slashings", b);
            go!(c => c.post_proposer_slashing(&x))
        }
        35 => {
            let b = vals(src, Fork::Altair, "SyncCommitteeMessage", 3);
            let x: Vec<_> = arg(&b);
            c.post("post_sync_committee_messages", "eth/v1/beacon/pool/sync_committees", b);
            go!(c => c.post_sync_committee_messages(&x))
        }
        36 => {
            c.get("get_voluntary_exits_from_pool", "eth/v1/beacon/pool/voluntary_exits").data(vals(src, Fork::Phase0, "SignedVoluntaryExit", 3));
            go!(c => c.get_voluntary_exits_from_pool())
        }
        37 => {
            let b = val(src, Fork::Phase0, "SignedVoluntaryExit");
            let x = arg(&b);
            c.post("post_signed_voluntary_exit", "eth/v1/beacon/pool/voluntary_exits", b);
            go!(c => c.post_signed_voluntary_exit(&x))
        }
        38 => {
            c.get("get_bls_to_execution_changes", "eth/v1/beacon/pool/bls_to_execution_changes").data(vals(src, Fork::Capella, "SignedBLSToExecutionChange", 3));
            go!(c => c.get_bls_to_execution_changes())
        }
        39 => {
            let b = vals(src, Fork::Capella, "SignedBLSToExecutionChange", 3);
            let x: Vec<_> = arg(&b);
            c.post("post_bls_to_execution_changes", "eth/v1/beacon/pool/bls_to_execution_changes", b);
            go!(c => c.post_bls_to_execution_changes(&x))
        }
        40 => {
            let (id, t) = state_id(src);
            c.get("get_expected_withdrawals", format!("eth/v1/builder/states/{t}/expected_withdrawals"));
            let s = c.maybe(src, "proposal_slot");
            c.data(vals(src, Fork::Capella, "Withdrawal", 4));
            go!(c => c.get_expected_withdrawals(id, s))
        }
        41 => {
            c.get("get_fork_schedule", "eth/v1/config/fork_schedule").data(vals(src, Fork::Phase0, "Fork", 4));
            go!(c => c.get_fork_schedule())
        }
        42 => {
            let mut m = serde_json::Map::new();
            for _ in 0..src.below(5) {
                let k = format!("KEY_{}", src.below(100));
                let v = *src.pick(&["1", "0x00000001", "mainnet", "", "18446744073709551615"]);
                m.insert(k, json!(v));
            }
            c.get("get_spec", "eth/v1/config/spec").data(Json::Object(m));
            go!(c => c.get_spec())
        }
        43 => {
            c.get("get_deposit_contract_address", "eth/v1/config/deposit_contract").data(json!({"chain_id": u(src), "address": h(src, 20)}));
            go!(c => c.get_deposit_contract_address())
        }
        44 => {
            let (id, t) = state_id(src);
            let d = val(src, full, "BeaconState");
            c.get("get_state", format!("eth/v2/debug/beacon/states/{t}")).versioned(full, d);
            go!(c => c.get_state(id))
        }
        45 => {
            let d = (0..src.below(4)).map(|_| json!({"slot": u(src), "root": h(src, 32), "execution_optimistic": src.bool()})).collect();
            c.get("get_heads", "eth/v2/debug/beacon/heads").data(Json::Array(d));
            go!(c => c.get_heads())
        }
        46 => {
            let f = refmodel::cfg::FORKS[2 + src.idx(3)];
            let mut a = json!({"timestamp": u(src), "prev_randao": h(src, 32), "suggested_fee_recipient": h(src, 20)});
            if f >= Fork::Capella {
                a["withdrawals"] = vals(src, Fork::Capella, "Withdrawal", 3);
            }
            if f >= Fork::Deneb {
                a["parent_beacon_block_root"] = h(src, 32);
            }
            let d = json!({
                "proposer_index": u(src), "proposal_slot": u(src), "parent_block_number": u(src),
                "parent_block_root": h(src, 32), "parent_block_hash": h(src, 32), "payload_attributes": a,
            });
            c.get("get_events", "eth/v1/events").list("topics", vec!["payload_attributes".into()]);
            let event = json!({"version": f.name(), "data": d});
            c.reply = Reply::Text(format!("event: payload_attributes\ndata: {event}\n\n"));
            c.expect = json!([event]);
            go(move |c| async move {
                let all = c.get_events::<PayloadAttributesTopic>().await?.take_all();
                Ok(all.into_iter().collect::<Result<Vec<_>, _>>()?)
            })
        }
        47 => {
            let d = json!({
                "peer_id": peer(src), "enr": enr(src),
                "p2p_addresses": [address(src), address(src)], "discovery_addresses": [address(src)],
                "metadata": {"seq_number": u(src), "attnets": h(src, 8), "syncnets": json!(format!("0x{:02x}", src.below(16)))},
            });
            c.get("get_node_identity", "eth/v1/node/identity").data(d);
            go!(c => c.get_node_identity())
        }
        48 => {
            c.get("get_node_peers", "eth/v1/node/peers");
            let mut s = vec![];
            let mut d = vec![];
            let (mut st, mut dt) = (vec![], vec![]);
            for _ in 0..src.below(3) {
                let (a, b) = peer_state(src);
                s.push(a);
                st.push(b);
            }
            for _ in 0..src.below(3) {
                let (a, b) = direction(src);
                d.push(a);
                dt.push(b);
            }
            c.list("state", st).list("direction", dt);
            let v = (0..src.below(3)).map(|_| peer_description(src)).collect();
            c.data(Json::Array(v));
            go!(c => c.get_node_peers(&s, &d))
        }
        49 => {
            let p = peer(src);
            let id = arg(&p);
            let d = peer_description(src);
            c.get("get_peer", format!("eth/v1/node/peers/{}", p.as_str().unwrap())).data(d);
            go!(c => c.get_peer(id))
        }
        50 => {
            c.get("get_peer_summary", "eth/v1/node/peer_count")
                .data(json!({"disconnected": u(src), "connecting": u(src), "connected": u(src), "disconnecting": u(src)}));
            go!(c => c.get_peer_summary())
        }
        51 => {
            let v = *src.pick(&["Lighthouse/v0.1.5 (Linux x86_64)", "", "\"x\"\\"]);
            c.get("get_node_version", "eth/v1/node/version").data(json!({ "version": v }));
            c.expect = json!(v);
            go!(c => c.get_node_version())
        }
        52 => {
            let (a, b, s) = (u(src), u(src), src.bool());
            c.get("get_sync_status", "eth/v1/node/syncing");
            c.reply = Reply::Data(json!({"head_slot": a, "sync_distance": b, "is_syncing": s, "is_optimistic": src.bool(), "el_offline": src.bool()}));
            c.expect = json!({"head_slot": a, "sync_distance": b, "is_syncing": s});
            go!(c => c.get_sync_status())
        }
        53 => {
            let e = src.edgy();
            let i: Vec<usize> = (0..src.below(4)).map(|_| src.edgy() as usize).collect();
            let r = h(src, 32);
            let v = (0..src.below(3))
                .map(|_| {
                    json!({
                        "pubkey": h(src, 48), "validator_index": u(src), "committee_index": u(src), "committee_length": u(src),
                        "committees_at_slot": u(src), "validator_committee_index": u(src), "slot": u(src),
                    })
                })
                .collect();
            c.post("get_attester_duties", format!("eth/v1/validator/duties/attester/{e}"), texts(&i)).duties(r, Json::Array(v));
            go!(c => c.get_attester_duties(e, &i))
        }
        54 => {
            let e = src.edgy();
            let r = h(src, 32);
            let v = (0..src.below(3)).map(|_| json!({"pubkey": h(src, 48), "validator_index": u(src), "slot": u(src)})).collect();
            c.get("get_proposer_duties", format!("eth/v1/validator/duties/proposer/{e}")).duties(r, Json::Array(v));
            go!(c => c.get_proposer_duties(e))
        }
        55 => {
            let e = src.edgy();
            let i: Vec<usize> = (0..src.below(4)).map(|_| src.edgy() as usize).collect();
            let v = (0..src.below(3)).map(|_| json!({"pubkey": h(src, 48), "validator_index": u(src), "validator_sync_committee_indices": us(src)})).collect();
            c.post("get_sync_committee_duties", format!("eth/v1/validator/duties/sync/{e}"), texts(&i)).data(Json::Array(v));
            go!(c => c.get_sync_committee_duties(e, &i))
        }
        56 | 57 => {
            let s = src.edgy();
            let r = h(src, 96);
            let g = src.bool().then(|| h(src, 32));
            let (reveal, graffiti) = (arg(&r), g.as_ref().map(arg));
            if which == 56 {
                c.get("get_block_proposal", format!("eth/v2/validator/blocks/{s}")).versioned(full, val(src, full, "BeaconBlock"));
            } else {
                c.get("get_blinded_block_proposal", format!("eth/v1/validator/blinded_blocks/{s}")).versioned(blind, val(src, blind, "BlindedBeaconBlock"));
            }
            c.list("randao_reveal", vec![plain(&r)]).list("graffiti", g.iter().map(plain).collect());
            if which == 56 {
                go!(c => c.get_block_proposal(s, reveal, graffiti))
            } else {
                go!(c => c.get_blinded_block_proposal(s, reveal, graffiti))
            }
        }
        58 => {
            let (s, i) = (src.edgy(), src.edgy());
            c.get("get_attestation_data", "eth/v1/validator/attestation_data")
                .list("slot", vec![s.to_string()])
                .list("committee_index", vec![i.to_string()])
                .data(val(src, Fork::Phase0, "AttestationData"));
            go!(c => c.get_attestation_data(s, i as usize))
        }
        59 => {
            let s = src.edgy();
            let (r, t) = root(src);
            c.get("get_attestation_aggregate", "eth/v1/validator/aggregate_attestation")
                .list("slot", vec![s.to_string()])
                .list("attestation_data_root", vec![t])
                .data(val(src, Fork::Phase0, "Attestation"));
            go!(c => c.get_attestation_aggregate(r, s))
        }
        60 => {
            let (s, i) = (src.edgy(), src.edgy());
            let (r, t) = root(src);
            c.get("get_sync_committee_contribution", "eth/v1/validator/sync_committee_contribution")
                .list("slot", vec![s.to_string()])
                .list("subcommittee_index", vec![i.to_string()])
                .list("beacon_block_root", vec![t])
                .data(val(src, Fork::Altair, "SyncCommitteeContribution"));
            go!(c => c.get_sync_committee_contribution(s, i as usize, r))
        }
        _ => match src.below(7) {
            0 => {
                let b = vals(src, Fork::Phase0, "SignedAggregateAndProof", 2);
                let x: Vec<<Of as ClientTypes>::SignedAggregateAndProof> = arg(&b);
                c.post("post_aggregates_with_proofs", "eth/v1/validator/aggregate_and_proofs", b);
                go!(c => c.post_aggregates_with_proofs(&x))
            }
            1 => {
                let b = (0..src.below(4))
                    .map(|_| json!({"validator_index": u(src), "committee_index": u(src), "committees_at_slot": u(src), "slot": u(src), "is_aggregator": src.bool()}))
                    .collect();
                let b = Json::Array(b);
                let x: Vec<_> = arg(&b);
                c.post("subscribe_subnets_for_attestation_committees", "eth/v1/validator/beacon_committee_subscriptions", b);
                go!(c => c.subscribe_subnets_for_attestation_committees(&x))
            }
            2 => {
                let b = (0..src.below(4)).map(|_| json!({"validator_index": u(src), "sync_committee_indices": us(src), "until_epoch": u(src)})).collect();
                let b = Json::Array(b);
                let x: Vec<_> = arg(&b);
                c.post("subscribe_subnets_for_sync_committees", "eth/v1/validator/sync_committee_subscriptions", b);
                go!(c => c.subscribe_subnets_for_sync_committees(&x))
            }
            3 => {
                let b = vals(src, Fork::Altair, "SignedContributionAndProof", 2);
                let x: Vec<<Of as ClientTypes>::SignedContributionAndProof> = arg(&b);
                c.post("post_sync_committee_contributions_with_proofs", "eth/v1/validator/contribution_and_proofs", b);
                go!(c => c.post_sync_committee_contributions_with_proofs(&x))
            }
            4 => {
                let b = Json::Array((0..src.below(4)).map(|_| json!({"validator_index": u(src), "fee_recipient": h(src, 20)})).collect());
                let x: Vec<_> = arg(&b);
                c.post("prepare_proposers", "eth/v1/validator/prepare_beacon_proposer", b);
                go!(c => c.prepare_proposers(&x))
            }
            5 => {
                let b = Json::Array(
                    (0..src.below(4))
                        .map(|_| {
                            json!({
                                "message": {"fee_recipient": h(src, 20), "gas_limit": u(src), "timestamp": u(src), "pubkey": h(src, 48)},
                                "signature": h(src, 96),
                            })
                        })
                        .collect(),
                );
                let x: Vec<_> = arg(&b);
                c.post("register_validators_with_builders", "eth/v1/validator/register_validator", b);
                go!(c => c.register_validators_with_builders(&x))
            }
            _ => {
                let e = src.edgy();
                let i: Vec<usize> = (0..src.below(4)).map(|_| src.edgy() as usize).collect();
                let v = (0..src.below(4)).map(|_| json!({"index": u(src), "is_live": src.bool()})).collect();
                c.post("post_liveness", format!("eth/v1/validator/liveness/{e}"), texts(&i)).data(Json::Array(v));
                go!(c => c.post_liveness(e, &i))
            }
        },
    };
    (c, g)
}

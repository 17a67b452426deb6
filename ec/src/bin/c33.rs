//! C33: the helper functions a caller can use on a state by themselves
use eccheck::{ops::*, *};
use std::{
    cell::Cell,
    collections::{BTreeSet, HashSet},
    fmt::Debug,
};
fn same<T: PartialEq + Debug>(sp: &Spec, what: &str, want: Result<T, String>, got: Got<T>, input: &dyn Fn() -> String) -> CaseResult {
    let f = sp.f.name();
    match (&want, &got) {
        (Ok(w), Got::Ok(g)) => {
            ensure!(w == g, format!("{what}-{f}"), "{what} on {f}: got {} expected {}; {}", cut(&format!("{g:?}")), cut(&format!("{w:?}")), input());
            Ok(())
        }
        (Ok(w), g) => fail(format!("{what}-{f}-refused"), format!("{what} on {f}: {} expected {}; {}", g.kind(), cut(&format!("{w:?}")), input())),
        (Err(e), Got::Ok(g)) => fail(format!("{what}-{f}-answered"), format!("{what} on {f}: got {} although there is no answer ({e}); {}", cut(&format!("{g:?}")), input())),
        (Err(e), Got::Panic(p)) if e != "arithmetic" => fail(format!("{what}-{f}-panic"), format!("{what} on {f}: panics ({}) instead of an error ({e}); {}", cut(p), input())),
        _ => Ok(()),
    }
}
fn plain<T>(f: impl FnOnce() -> T) -> Got<T> {
    run(|| Ok::<_, ()>(f()))
}
fn set(x: HashSet<usize>) -> BTreeSet<u64> {
    x.into_iter().map(|i| i as u64).collect()
}
fn u64s(x: impl IntoIterator<Item = usize>) -> Vec<u64> {
    x.into_iter().map(|i| i as u64).collect()
}
fn root32(x: &impl AsRef<[u8]>) -> H {
    x.as_ref().try_into().unwrap()
}
fn setup(src: &mut Src, from: Fork) -> (Cfg, Spec, State) {
    let f = fork_from(src, from);
    let c = gen::cfg(src);
    let sp = Spec::new(&c, f);
    let mut s = gen::state(src, &sp, gen::OPS);
    for _ in 0..src.below(4) {
        let i = src.below(s.validators.len() as u64);
        tweak_validator(src, &sp, &mut s, i);
    }
    (c, sp, s)
}
fn hit(obs: &mut Obs, sp: &Spec, s: &State, extra: &str) {
    obs.label(sp.f.name());
    obs.hit(format!("{extra} {:?} {}", sp.f, pbt::hash_bytes(&sp.fp().enc("BeaconState", s))).as_bytes());
}
/// what every fork has: epochs, registry, balances, mixes, committees
fn registry(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let (c, sp, s) = setup(src, Phase0);
    let ctx = context(&c);
    let fp = sp.fp();
    let e = sp.cur(&s);
    let at = match src.below(4) {
        0 => src.edgy(),
        1 => gen::near(src, e),
        _ => (e + src.below(4)).saturating_sub(1),
    };
    // a mix is stored for these epochs
    let mixed = (e + src.below(3)).saturating_sub(1);
    let spe = c.k.SLOTS_PER_EPOCH;
    let slot = s.slot / spe * spe + src.below(spe);
    let n = s.validators.len() as u64;
    let i = src.below(n);
    let d = *src.pick(&[8u64, 2, 3, 5]);
    let some: BTreeSet<u64> = if src.chance(1, 6) { BTreeSet::new() } else { (0..n).filter(|_| src.chance(d, 8)).collect() };
    let hs: HashSet<usize> = some.iter().map(|i| *i as usize).collect();
    let v = s.validators[i as usize].clone();
    let idx = src.below(sp.committee_count(&s, e).max(1));
    let kind = *src.pick(&[DOMAIN_BEACON_PROPOSER, DOMAIN_BEACON_ATTESTER]);
    let kinds = if kind == DOMAIN_BEACON_PROPOSER { ec::domains::DomainType::BeaconProposer } else { ec::domains::DomainType::BeaconAttester };
    let opt = src.bool();
    let input = || format!("{}; epoch {at}, validator {i} {v:?}", brief(&sp, &s));
    all_forks!(sp.f, spec => {
        let st: spec::BeaconState = try_repo(fp, "BeaconState", &s)?;
        let val: spec::Validator = try_repo(fp, "Validator", &v)?;
        macro_rules! cmp { ($n:expr, $got:expr, $want:expr) => { same(&sp, $n, model(|| $want), $got, &input)? } }
        cmp!("get_current_epoch", plain(|| spec::get_current_epoch(&st, &ctx)), Ok(sp.cur(&s)));
        cmp!("get_previous_epoch", plain(|| spec::get_previous_epoch(&st, &ctx)), Ok(sp.prev(&s)));
        cmp!("compute_epoch_at_slot", plain(|| spec::compute_epoch_at_slot(at, &ctx)), Ok(sp.epoch_at(at)));
        if at < u64::MAX / 64 {
            cmp!("compute_start_slot_at_epoch", plain(|| spec::compute_start_slot_at_epoch(at, &ctx)), sp.start_slot(at));
            cmp!("compute_activation_exit_epoch", plain(|| spec::compute_activation_exit_epoch(at, &ctx)), Ok(sp.activation_exit_epoch(at)));
        }
        cmp!("get_randao_mix", plain(|| root32(spec::get_randao_mix(&st, at))), Ok(sp.randao_mix(&s, at)));
        cmp!("get_seed", plain(|| root32(&spec::get_seed(&st, mixed, kinds, &ctx))), Ok(sp.seed(&s, mixed, kind)));
        cmp!("get_domain", run(|| spec::get_domain(&st, kinds, opt.then_some(at), &ctx)).map(|x| root32(&x)), Ok(sp.domain(&s, kind, if opt { at } else { e })));
        cmp!("get_active_validator_indices", plain(|| u64s(spec::get_active_validator_indices(&st, at))), Ok(sp.active_indices(&s, at)));
        cmp!("get_eligible_validator_indices", plain(|| u64s(spec::get_eligible_validator_indices(&st, &ctx))), Ok(sp.eligible(&s)));
        cmp!("get_validator_churn_limit", plain(|| spec::get_validator_churn_limit(&st, &ctx) as u64), Ok(sp.churn_limit(&s)));
        cmp!("get_committee_count_per_slot", plain(|| spec::get_committee_count_per_slot(&st, at, &ctx) as u64), Ok(sp.committee_count(&s, at)));
        cmp!("get_beacon_committee", run(|| spec::get_beacon_committee(&st, slot, idx as usize, &ctx)).map(u64s), Ok(sp.committee(&s, slot, idx)));
        cmp!("get_total_balance", run(|| spec::get_total_balance(&st, &hs, &ctx)), Ok(sp.total_balance(&s, some.iter().copied())));
        cmp!("get_total_active_balance", run(|| spec::get_total_active_balance(&st, &ctx)), Ok(sp.total_active(&s)));
        cmp!("is_active_validator", plain(|| spec::is_active_validator(&val, at)), Ok(active(&v, at)));
        cmp!("is_slashable_validator", plain(|| spec::is_slashable_validator(&val, at)), Ok(slashable(&v, at)));
        cmp!("is_eligible_for_activation", plain(|| spec::is_eligible_for_activation(&st, &val)), Ok(v.activation_eligibility_epoch <= s.finalized_checkpoint.epoch && v.activation_epoch == FAR_FUTURE));
        cmp!("is_eligible_for_activation_queue", plain(|| spec::is_eligible_for_activation_queue(&val, &ctx)), Ok(v.activation_eligibility_epoch == FAR_FUTURE && if sp.f >= Electra { v.effective_balance >= c.k.MIN_ACTIVATION_BALANCE } else { v.effective_balance == c.k.MAX_EFFECTIVE_BALANCE }));
        cmp!("get_finality_delay", plain(|| spec::get_finality_delay(&st, &ctx)), Ok(sp.finality_delay(&s)));
        cmp!("is_in_inactivity_leak", plain(|| spec::is_in_inactivity_leak(&st, &ctx)), Ok(sp.leaking(&s)));
        cmp!("get_base_reward", run(|| spec::get_base_reward(&st, i as usize, &ctx)), Ok(if sp.f == Phase0 { sp.base_reward_phase0(&s, i) } else { sp.base_reward(&s, i) }));
    });
    hit(obs, &sp, &s, &format!("{at} {i}"));
    obs.sample(input);
    Ok(())
}
/// participation and the deltas it earns, component by component
fn deltas(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let f = fork_from(src, Phase0);
    let c = gen::cfg(src);
    let sp = Spec::new(&c, f);
    let s = gen::state(src, &sp, gen::EPOCH_END);
    let ctx = context(&c);
    let fp = sp.fp();
    let e = sp.cur(&s);
    if e == 0 {
        return Ok(());
    }
    let at = (e + src.below(4)).saturating_sub(2);
    let flag = src.idx(3);
    let i = src.below(s.validators.len() as u64);
    let input = || format!("{}; epoch {at}, flag {flag}, validator {i}", brief(&sp, &s));
    macro_rules! cmp { ($n:expr, $got:expr, $want:expr) => { same(&sp, $n, model(|| $want), $got, &input)? } }
    if sp.f == Phase0 {
        forks!(sp.f, [Phase0 phase0], spec => {
        let st: spec::BeaconState = try_repo(fp, "BeaconState", &s)?;
        let list = |x: Vec<&spec::PendingAttestation>| x.into_iter().map(|a| from_repo::<_, PendingAttestation>(fp, "PendingAttestation", a)).collect::<Vec<_>>();
        cmp!("get_matching_source_attestations", run(|| spec::get_matching_source_attestations(&st, at, &ctx)).map(|x| list(x.iter().collect())), sp.matching_source(&s, at));
        cmp!("get_matching_target_attestations", run(|| spec::get_matching_target_attestations(&st, at, &ctx)).map(list), sp.matching_target(&s, at));
        cmp!("get_matching_head_attestations", run(|| spec::get_matching_head_attestations(&st, at, &ctx)).map(list), sp.matching_head(&s, at));
        let p = sp.prev(&s);
        let all = s.previous_epoch_attestations.clone();
        cmp!("get_unslashed_attesting_indices", run(|| spec::get_unslashed_attesting_indices(&st, st.previous_epoch_attestations.iter(), &ctx)).map(set), sp.unslashed_attesting(&s, &all));
        cmp!("get_attesting_balance", run(|| spec::get_attesting_balance(&st, st.previous_epoch_attestations.iter(), &ctx)), sp.unslashed_attesting(&s, &all).map(|x| sp.total_balance(&s, x)));
        cmp!("get_proposer_reward", run(|| spec::get_proposer_reward(&st, i as usize, &ctx)), Ok(sp.base_reward_phase0(&s, i) / c.k.PROPOSER_REWARD_QUOTIENT));
        cmp!("get_source_deltas", run(|| spec::get_source_deltas(&st, &ctx)), sp.deltas(&s).map(|d| d[0].clone()));
        cmp!("get_target_deltas", run(|| spec::get_target_deltas(&st, &ctx)), sp.deltas(&s).map(|d| d[1].clone()));
        cmp!("get_head_deltas", run(|| spec::get_head_deltas(&st, &ctx)), sp.deltas(&s).map(|d| d[2].clone()));
        cmp!("get_inclusion_delay_deltas", run(|| spec::get_inclusion_delay_deltas(&st, &ctx)), sp.deltas(&s).map(|d| d[3].clone()));
        cmp!("get_inactivity_penalty_deltas", run(|| spec::get_inactivity_penalty_deltas(&st, &ctx)), sp.deltas(&s).map(|d| d[4].clone()));
        cmp!("get_attestation_deltas", run(|| spec::get_attestation_deltas(&st, &ctx)), sp.deltas(&s).map(|d| Spec::sum(&d)));
        if s.previous_epoch_attestations.iter().any(|a| sp.epoch_at(a.data.slot) == p) {
            hit(obs, &sp, &s, "deltas");
        }
        })
    } else {
        altair_on!(sp.f, spec => {
            let st: spec::BeaconState = try_repo(fp, "BeaconState", &s)?;
            cmp!("get_unslashed_participating_indices", run(|| spec::get_unslashed_participating_indices(&st, flag, at, &ctx)).map(set), sp.unslashed_participating(&s, flag, at));
            cmp!("get_base_reward_per_increment", run(|| spec::get_base_reward_per_increment(&st, &ctx)), Ok(sp.base_reward_per_increment(&s)));
            cmp!("get_flag_index_deltas", run(|| spec::get_flag_index_deltas(&st, flag, &ctx)), sp.deltas(&s).map(|d| d[flag].clone()));
            cmp!("get_inactivity_penalty_deltas", run(|| spec::get_inactivity_penalty_deltas(&st, &ctx)), sp.deltas(&s).map(|d| d[3].clone()));
            let flags: u8 = src.below(256) as u8;
            cmp!("has_flag", plain(|| spec::has_flag(flags, flag)), Ok(flags >> flag & 1 == 1));
            cmp!("add_flag", plain(|| spec::add_flag(flags, flag)), Ok(flags | 1 << flag));
        });
        hit(obs, &sp, &s, "deltas");
    }
    obs.sample(input);
    Ok(())
}
/// an aggregate's attesters, and their indexed form
fn attesters(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let (c, sp, mut s) = setup(src, Phase0);
    let ctx = context(&c);
    let fp = sp.fp();
    let Some(mut a) = gen::attestation(src, &sp, &mut s) else { return Ok(()) };
    let delay = *src.pick(&[1, 2, 3, 4, 7, 8, 9, 16, 31]);
    match src.weighted(&[5, 1, 1]) {
        0 => {}
        1 => {
            let k = a.aggregation_bits.0.len();
            a.aggregation_bits.0.truncate(src.idx(k + 1));
        }
        _ => {
            let (b, _) = gen::mutate_as(src, fp, "AttestationData", &a.data);
            // the epoch must have committees, and the committee must be one of the slot's
            let e = sp.epoch_at(b.slot);
            if (e == sp.cur(&s) || e == sp.prev(&s)) && b.index < sp.committee_count(&s, e) {
                let n: usize = if sp.f >= Electra { a.aggregation_bits.0.len() } else { sp.committee(&s, b.slot, b.index).len() };
                if sp.f < Electra || (b.slot == a.data.slot) {
                    a.aggregation_bits.0.resize(n, true);
                    a.data = b;
                }
            }
        }
    }
    let input = || format!("{}; {a:?}; delay {delay}", brief(&sp, &s));
    let want = model(|| sp.attestation_attesters(&s, &a));
    let ix = want.clone().map(|w| IndexedAttestation { attesting_indices: w.into_iter().collect(), data: a.data.clone(), signature: a.signature });
    let got = all_forks!(sp.f, spec => {
        let st: spec::BeaconState = try_repo(fp, "BeaconState", &s)?;
        let at: spec::Attestation = try_repo(fp, "Attestation", &a)?;
        run(|| spec::get_indexed_attestation(&st, &at, &ctx)).map(|x| from_repo::<_, IndexedAttestation>(fp, "IndexedAttestation", &x))
    });
    same(&sp, "get_indexed_attestation", ix, got, &input)?;
    let got = if sp.f >= Electra {
        forks!(sp.f, [Electra electra], spec => {
        let st: spec::BeaconState = try_repo(fp, "BeaconState", &s)?;
        let at: spec::Attestation = try_repo(fp, "Attestation", &a)?;
        let cb = plain(|| spec::get_committee_indices(&at.committee_bits)).map(|x| u64s(x));
        same(&sp, "get_committee_indices", model(|| Ok(Spec::committee_indices(&a.committee_bits))), cb, &input)?;
        run(|| spec::get_attesting_indices(&st, &at, &ctx)).map(set)
        })
    } else {
        forks!(sp.f, [Phase0 phase0, Altair altair, Bellatrix bellatrix, Capella capella, Deneb deneb], spec => {
            let st: spec::BeaconState = try_repo(fp, "BeaconState", &s)?;
            let at: spec::Attestation = try_repo(fp, "Attestation", &a)?;
            run(|| spec::get_attesting_indices(&st, &at.data, &at.aggregation_bits, &ctx)).map(set)
        })
    };
    same(&sp, "get_attesting_indices", want, got, &input)?;
    hit(obs, &sp, &s, &format!("{a:?}"));
    obs.sample(input);
    Ok(())
}
/// is this indexed attestation signed by those it lists
fn indexed(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let (c, sp, mut s) = setup(src, Phase0);
    let ctx = context(&c);
    let fp = sp.fp();
    let Some(x) = gen::attester_slashing(src, &sp, &mut s) else { return Ok(()) };
    let mut a = if src.bool() { x.attestation_1 } else { x.attestation_2 };
    let n = s.validators.len() as u64;
    let change = match src.weighted(&[3, 1, 1, 1, 1, 1, 1, 2]) {
        0 => "none",
        1 => {
            a.attesting_indices.clear();
            "nobody"
        }
        2 => {
            let k = a.attesting_indices.len();
            a.attesting_indices.swap(0, k - 1);
            "order"
        }
        3 => {
            let v = *src.pick(&a.attesting_indices);
            a.attesting_indices.push(v);
            a.attesting_indices.sort();
            "twice"
        }
        4 => {
            a.attesting_indices.push(n + src.below(3));
            "no such validator"
        }
        5 => {
            let i = src.below(n);
            match a.attesting_indices.binary_search(&i) {
                Ok(k) => {
                    a.attesting_indices.remove(k);
                }
                Err(k) => a.attesting_indices.insert(k, i),
            }
            "one more or less"
        }
        6 => {
            a.signature[src.idx(96)] ^= 1 << src.below(8);
            "signature"
        }
        _ => {
            let (b, _) = gen::mutate_as(src, fp, "AttestationData", &a.data);
            a.data = b;
            "data"
        }
    };
    let input = || format!("{}; {change}; {a:?}", brief(&sp, &s));
    let want = model(|| Ok(sp.valid_indexed(&s, &a)));
    let got = all_forks!(sp.f, spec => {
        let st: spec::BeaconState = try_repo(fp, "BeaconState", &s)?;
        let at: spec::IndexedAttestation = try_repo(fp, "IndexedAttestation", &a)?;
        match run(|| spec::is_valid_indexed_attestation(&st, &at, &ctx)) {
            Got::Ok(()) => Got::Ok(true),
            Got::Err(_) => Got::Ok(false),
            Got::Panic(p) => Got::Panic(p),
        }
    });
    obs.label(change);
    same(&sp, "is_valid_indexed_attestation", want, got, &input)?;
    hit(obs, &sp, &s, &format!("{a:?}"));
    obs.sample(input);
    Ok(())
}
/// what the merge, withdrawals and balances up to 2048 brought
fn later(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let (c, sp, mut s) = setup(src, Bellatrix);
    let ctx = context(&c);
    let fp = sp.fp();
    let e = sp.cur(&s);
    let n = s.validators.len() as u64;
    let i = src.below(n);
    let at = gen::near(src, e);
    let mut body = empty_body(&sp, &s);
    if src.bool() {
        body.execution_payload = gen::payload(src, &sp, &s);
    } else if src.bool() {
        body.execution_payload = sp.default_payload();
    }
    if src.bool() {
        s.latest_execution_payload_header = sp.default_header();
    }
    let mut v = s.validators[i as usize].clone();
    if src.bool() {
        v.withdrawal_credentials[0] = *src.pick(&[0, 1, 2, 3]);
    }
    let max = if sp.f >= Electra { sp.max_eff(&v) } else { c.k.MAX_EFFECTIVE_BALANCE };
    if src.bool() {
        v.effective_balance = max;
    }
    let bal = match src.below(4) {
        0 => src.below(3),
        1 => max + src.below(3) - 1,
        _ => s.balances[i as usize],
    };
    let slot = s.slot + src.below(20);
    let amount = src.below(300) * GWEI / 7;
    let input = || format!("{}; epoch {at}, balance {bal}, validator {v:?}", brief(&sp, &s));
    macro_rules! cmp { ($n:expr, $got:expr, $want:expr) => { same(&sp, $n, model(|| $want), $got, &input)? } }
    bellatrix_on!(sp.f, spec => {
        let st: spec::BeaconState = try_repo(fp, "BeaconState", &s)?;
        let b: spec::BeaconBlockBody = try_repo(fp, "BeaconBlockBody", &body)?;
        cmp!("is_merge_transition_complete", plain(|| spec::is_merge_transition_complete(&st)), Ok(sp.merge_complete(&s)));
        cmp!("is_execution_enabled", plain(|| spec::is_execution_enabled(&st, &b)), Ok(sp.execution_enabled(&s, &body)));
        cmp!("is_merge_transition_block", plain(|| spec::is_merge_transition_block(&st, &b)), Ok(!sp.merge_complete(&s) && body.execution_payload != sp.default_payload()));
        cmp!("compute_timestamp_at_slot", run(|| spec::compute_timestamp_at_slot(&st, slot, &ctx)), Ok(sp.timestamp_at(&s, slot)));
    });
    if sp.f >= Capella {
        capella_on!(sp.f, spec => {
            let val: spec::Validator = try_repo(fp, "Validator", &v)?;
            cmp!("is_fully_withdrawable_validator", plain(|| spec::is_fully_withdrawable_validator(&val, bal, at)), Ok(sp.fully_withdrawable(&v, bal, at)));
            cmp!("is_partially_withdrawable_validator", plain(|| spec::is_partially_withdrawable_validator(&val, bal, &ctx)), Ok(sp.partially_withdrawable(&v, bal)));
            cmp!("has_eth1_withdrawal_credential", plain(|| spec::has_eth1_withdrawal_credential(&val)), Ok(has_eth1_cred(&v)));
        });
    }
    if sp.f == Deneb {
        forks!(sp.f, [Deneb deneb], spec => {
        let st: spec::BeaconState = try_repo(fp, "BeaconState", &s)?;
        cmp!("get_validator_activation_churn_limit", plain(|| spec::get_validator_activation_churn_limit(&st, &ctx) as u64), Ok(sp.activation_churn_limit(&s)));
        })
    }
    if sp.f >= Electra {
        forks!(sp.f, [Electra electra], spec => {
        let st: spec::BeaconState = try_repo(fp, "BeaconState", &s)?;
        let val: spec::Validator = try_repo(fp, "Validator", &v)?;
        cmp!("has_compounding_withdrawal_credential", plain(|| spec::has_compounding_withdrawal_credential(&val)), Ok(has_compounding(&v)));
        cmp!("has_execution_withdrawal_credential", plain(|| spec::has_execution_withdrawal_credential(&val)), Ok(has_exec_cred(&v)));
        cmp!("is_compounding_withdrawal_credential", plain(|| spec::is_compounding_withdrawal_credential(&val.withdrawal_credentials)), Ok(has_compounding(&v)));
        cmp!("get_validator_max_effective_balance", plain(|| spec::get_validator_max_effective_balance(&val, &ctx)), Ok(sp.max_eff(&v)));
        cmp!("get_balance_churn_limit", run(|| spec::get_balance_churn_limit(&st, &ctx)), Ok(sp.balance_churn_limit(&s)));
        cmp!("get_activation_exit_churn_limit", run(|| spec::get_activation_exit_churn_limit(&st, &ctx)), Ok(sp.activation_exit_churn_limit(&s)));
        cmp!("get_consolidation_churn_limit", run(|| spec::get_consolidation_churn_limit(&st, &ctx)), Ok(sp.consolidation_churn_limit(&s)));
        cmp!("get_active_balance", plain(|| spec::get_active_balance(&st, i as usize, &ctx)), Ok(sp.active_balance(&s, i)));
        for j in [i].into_iter().chain(s.pending_partial_withdrawals.iter().map(|p| p.index)) {
            cmp!("get_pending_balance_to_withdraw", plain(|| spec::get_pending_balance_to_withdraw(&st, j as usize)), Ok(sp.pending_to_withdraw(&s, j)));
        }
        for exit in [true, false] {
            let want = model(|| {
                let mut m = s.clone();
                let e = if exit { sp.exit_epoch_update_churn(&mut m, amount) } else { sp.consolidation_epoch_update_churn(&mut m, amount)? };
                Ok((e, m))
            });
            // no churn at all: undefined, and nothing calls it then
            if matches!(&want, Err(e) if e == "no consolidation churn") {
                continue;
            }
            let out = Cell::new(0);
            let got = on_state::<spec::BeaconState>(fp, &s, |st| {
                out.set(if exit { spec::compute_exit_epoch_and_update_churn(st, amount, &ctx)? } else { spec::compute_consolidation_epoch_and_update_churn(st, amount, &ctx)? });
                Ok(())
            })?;
            let name = if exit { "compute_exit_epoch_and_update_churn" } else { "compute_consolidation_epoch_and_update_churn" };
            if let (Ok((e, _)), Got::Ok(_)) = (&want, &got) {
                ensure_eq!(*e, out.get(), format!("{name}-epoch"), "amount {amount}; {}", input());
            }
            judge(fp, name, want.map(|x| x.1), got, obs, || format!("amount {amount}; {}", input()))?;
        }
        })
    }
    hit(obs, &sp, &s, &format!("{i} {at} {bal}"));
    obs.sample(input);
    Ok(())
}
/// helpers that change the state
fn changes(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let (c, sp, s) = setup(src, Phase0);
    let ctx = context(&c);
    let fp = sp.fp();
    let n = s.validators.len() as u64;
    let i = src.below(n);
    let x = if src.bool() { src.edgy() } else { s.balances[i as usize] + src.below(3) };
    let whistle = src.bool().then(|| src.below(n));
    let which = src.below(if sp.f >= Electra { 7 } else { 4 });
    let name = ["increase_balance", "decrease_balance", "initiate_validator_exit", "slash_validator", "switch_to_compounding_validator", "queue_excess_active_balance", "queue_entire_balance_and_reset_validator"][which as usize];
    let x = if which == 0 { x >> 2 } else { x };
    let want = model(|| {
        let mut m = s.clone();
        match which {
            0 => sp.increase(&mut m, i, x),
            1 => sp.decrease(&mut m, i, x),
            2 => sp.initiate_exit(&mut m, i),
            3 => sp.slash(&mut m, i, whistle)?,
            4 => sp.switch_to_compounding(&mut m, i),
            5 => sp.queue_excess(&mut m, i),
            _ => {
                let b = m.balances[i as usize];
                m.balances[i as usize] = 0;
                let v = &mut m.validators[i as usize];
                v.effective_balance = 0;
                v.activation_eligibility_epoch = FAR_FUTURE;
                m.pending_balance_deposits.push(PendingBalanceDeposit { index: i, amount: b });
            }
        }
        Ok(m)
    });
    let k = i as usize;
    let got = if which < 4 {
        all_forks!(sp.f, spec => on_state::<spec::BeaconState>(fp, &s, |st| {
            match which {
                0 => spec::increase_balance(st, k, x),
                1 => spec::decrease_balance(st, k, x),
                2 => spec::initiate_validator_exit(st, k, &ctx).outcome()?,
                _ => spec::slash_validator(st, k, whistle.map(|w| w as usize), &ctx)?,
            }
            Ok(())
        }))?
    } else {
        forks!(sp.f, [Electra electra], spec => {
        on_state::<spec::BeaconState>(fp, &s, |st| match which {
            4 => spec::switch_to_compounding_validator(st, k, &ctx).outcome(),
            5 => spec::queue_excess_active_balance(st, k, &ctx).outcome(),
            _ => spec::queue_entire_balance_and_reset_validator(st, k).outcome(),
        })?
        })
    };
    let input = || format!("{}; {name} of {i}, {x}, {whistle:?}", brief(&sp, &s));
    obs.label(name);
    hit(obs, &sp, &s, &format!("{name} {i} {x}"));
    obs.sample(input);
    judge(fp, name, want, got, obs, input)
}
use steps::Outcome;
fn main() {
    pbt::main(Check {
        property: "C33",
        rule: "A case is a fork, a configuration, a state (some validators edited), and arguments: epochs, slots, validators, balances, sets of indices, aggregates. Non-trivial: every helper of the group was called and compared; distinct by state and arguments.",
        assumptions: &["bls signatures are modelled by a stand-in with the same algebra (see DESIGN.md)"],
        subs: vec![
            Sub { name: "registry", quick: 30000, thorough: 600000, f: registry },
            Sub { name: "deltas", quick: 20000, thorough: 400000, f: deltas },
            Sub { name: "attesters", quick: 30000, thorough: 600000, f: attesters },
            Sub { name: "indexed", quick: 30000, thorough: 600000, f: indexed },
            Sub { name: "later", quick: 30000, thorough: 600000, f: later },
            Sub { name: "changes", quick: 50000, thorough: 1000000, f: changes },
        ],
    })
}

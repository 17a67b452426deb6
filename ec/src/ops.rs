//! Block operations as one type: generate, change, sign, apply to the model and to /repo.
use crate::*;

#[derive(Clone, Debug)]
pub enum Op {
    Attestation(Attestation),
    ProposerSlashing(ProposerSlashing),
    AttesterSlashing(AttesterSlashing),
    Deposit(Deposit),
    Exit(SignedVoluntaryExit),
    Sync(SyncAggregate),
    Bls(SignedBlsChange),
    Withdrawal(WithdrawalRequest),
    Receipt(DepositReceipt),
    Consolidation(SignedConsolidation),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Attestation,
    ProposerSlashing,
    AttesterSlashing,
    Deposit,
    Exit,
    Sync,
    Bls,
    Withdrawal,
    Receipt,
    Consolidation,
}
impl Kind {
    pub fn since(self) -> Fork {
        match self {
            Kind::Sync => Altair,
            Kind::Bls => Capella,
            Kind::Withdrawal | Kind::Receipt | Kind::Consolidation => Electra,
            _ => Phase0,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Kind::Attestation => "attestation",
            Kind::ProposerSlashing => "proposer slashing",
            Kind::AttesterSlashing => "attester slashing",
            Kind::Deposit => "deposit",
            Kind::Exit => "voluntary exit",
            Kind::Sync => "sync aggregate",
            Kind::Bls => "credential change",
            Kind::Withdrawal => "withdrawal request",
            Kind::Receipt => "deposit receipt",
            Kind::Consolidation => "consolidation",
        }
    }
    /// how many fit into a block
    pub fn bound(self, f: Fork, k: &Consts) -> u64 {
        match self {
            Kind::Attestation => if f >= Electra { k.MAX_ATTESTATIONS_ELECTRA } else { k.MAX_ATTESTATIONS },
            Kind::ProposerSlashing => k.MAX_PROPOSER_SLASHINGS,
            Kind::AttesterSlashing => if f >= Electra { k.MAX_ATTESTER_SLASHINGS_ELECTRA } else { k.MAX_ATTESTER_SLASHINGS },
            Kind::Deposit => k.MAX_DEPOSITS,
            Kind::Exit => k.MAX_VOLUNTARY_EXITS,
            Kind::Sync => 1,
            Kind::Bls => k.MAX_BLS_TO_EXECUTION_CHANGES,
            Kind::Withdrawal => k.MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD,
            Kind::Receipt => k.MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD,
            Kind::Consolidation => k.MAX_CONSOLIDATIONS,
        }
    }
    pub fn ty(self) -> &'static str {
        match self {
            Kind::Attestation => "Attestation",
            Kind::ProposerSlashing => "ProposerSlashing",
            Kind::AttesterSlashing => "AttesterSlashing",
            Kind::Deposit => "Deposit",
            Kind::Exit => "SignedVoluntaryExit",
            Kind::Sync => "SyncAggregate",
            Kind::Bls => "SignedBLSToExecutionChange",
            Kind::Withdrawal => "ExecutionLayerWithdrawalRequest",
            Kind::Receipt => "DepositReceipt",
            Kind::Consolidation => "SignedConsolidation",
        }
    }
}
macro_rules! each {
    ($s:expr, $x:ident => $e:expr) => {
        match $s {
            Op::Attestation($x) => $e,
            Op::ProposerSlashing($x) => $e,
            Op::AttesterSlashing($x) => $e,
            Op::Deposit($x) => $e,
            Op::Exit($x) => $e,
            Op::Sync($x) => $e,
            Op::Bls($x) => $e,
            Op::Withdrawal($x) => $e,
            Op::Receipt($x) => $e,
            Op::Consolidation($x) => $e,
        }
    };
}
impl Op {
    pub fn kind(&self) -> Kind {
        match self {
            Op::Attestation(_) => Kind::Attestation,
            Op::ProposerSlashing(_) => Kind::ProposerSlashing,
            Op::AttesterSlashing(_) => Kind::AttesterSlashing,
            Op::Deposit(_) => Kind::Deposit,
            Op::Exit(_) => Kind::Exit,
            Op::Sync(_) => Kind::Sync,
            Op::Bls(_) => Kind::Bls,
            Op::Withdrawal(_) => Kind::Withdrawal,
            Op::Receipt(_) => Kind::Receipt,
            Op::Consolidation(_) => Kind::Consolidation,
        }
    }
    /// a valid operation for the state, when the state offers one
    pub fn gen(k: Kind, src: &mut Src, sp: &Spec, s: &mut State) -> Option<Op> {
        Some(match k {
            Kind::Attestation => Op::Attestation(gen::attestation(src, sp, s)?),
            Kind::ProposerSlashing => Op::ProposerSlashing(gen::proposer_slashing(src, sp, s)?),
            Kind::AttesterSlashing => Op::AttesterSlashing(gen::attester_slashing(src, sp, s)?),
            Kind::Deposit => Op::Deposit(gen::deposits(src, sp, s, 1).remove(0)),
            Kind::Exit => Op::Exit(gen::voluntary_exit(src, sp, s)?),
            Kind::Sync => Op::Sync(gen::sync_aggregate(src, sp, s)),
            Kind::Bls => Op::Bls(gen::bls_change(src, sp, s)?),
            Kind::Withdrawal => Op::Withdrawal(gen::withdrawal_request(src, sp, s)),
            Kind::Receipt => Op::Receipt(gen::deposit_receipt(src, sp, s)),
            Kind::Consolidation => Op::Consolidation(gen::consolidation(src, sp, s)?),
        })
    }
    pub fn mutate(&mut self, src: &mut Src, fp: Fp) -> String {
        let ty = self.kind().ty();
        each!(self, x => { let (y, p) = gen::mutate_as(src, fp, ty, x); *x = y; p })
    }
    pub fn sign(&mut self, sp: &Spec, s: &State) {
        // an operation the model cannot even evaluate keeps its signature
        let mut t = self.clone();
        if let Ok(t) = guard(move || {
            t.sign_inner(sp, s);
            t
        }) {
            *self = t;
        }
    }
    fn sign_inner(&mut self, sp: &Spec, s: &State) {
        match self {
            Op::Attestation(x) => gen::sign_attestation(sp, s, x),
            Op::ProposerSlashing(x) => gen::sign_proposer_slashing(sp, s, x),
            Op::AttesterSlashing(x) => gen::sign_attester_slashing(sp, s, x),
            Op::Exit(x) => gen::sign_exit(sp, s, x),
            Op::Sync(x) => gen::sign_sync(sp, s, x),
            Op::Bls(x) => gen::sign_bls_change(sp, s, x),
            Op::Consolidation(x) => gen::sign_consolidation(sp, s, x),
            Op::Deposit(_) | Op::Withdrawal(_) | Op::Receipt(_) => {}
        }
    }
    /// validators the operation is about
    pub fn subjects(&self, s: &State) -> Vec<u64> {
        let by_key = |p: &B48| s.validators.iter().position(|v| v.pubkey == *p).map(|i| i as u64).into_iter().collect::<Vec<_>>();
        let v = match self {
            Op::ProposerSlashing(x) => vec![x.signed_header_1.message.proposer_index],
            Op::AttesterSlashing(x) => x.attestation_1.attesting_indices.iter().filter(|i| x.attestation_2.attesting_indices.contains(i)).copied().collect(),
            Op::Exit(x) => vec![x.message.validator_index],
            Op::Bls(x) => vec![x.message.validator_index],
            Op::Consolidation(x) => vec![x.message.source_index, x.message.target_index],
            Op::Withdrawal(x) => by_key(&x.validator_pubkey),
            Op::Receipt(x) => by_key(&x.pubkey),
            Op::Deposit(x) => by_key(&x.data.pubkey),
            Op::Attestation(_) | Op::Sync(_) => vec![],
        };
        v.into_iter().filter(|i| *i < s.validators.len() as u64).collect()
    }
    pub fn model(&self, sp: &Spec, s: &mut State) -> R<()> {
        match self {
            Op::Attestation(x) => sp.attestation(s, x),
            Op::ProposerSlashing(x) => sp.proposer_slashing(s, x),
            Op::AttesterSlashing(x) => sp.attester_slashing(s, x),
            Op::Deposit(x) => sp.deposit(s, x),
            Op::Exit(x) => sp.voluntary_exit(s, x),
            Op::Sync(x) => sp.sync_aggregate(s, x),
            Op::Bls(x) => sp.bls_change(s, x),
            Op::Withdrawal(x) => sp.withdrawal_request(s, x),
            Op::Receipt(x) => sp.deposit_receipt(s, x),
            Op::Consolidation(x) => sp.consolidation(s, x),
        }
    }
    /// the operation as /repo applies it
    pub fn repo(&self, c: &Cfg, fp: Fp, s: &State) -> Result<Got<State>, Failure> {
        let ctx = context(c);
        let ty = self.kind().ty();
        macro_rules! ap {
            ($on:ident, $t:ident, $f:ident, $x:expr $(, $m:tt)?) => {
                $on!(fp.f, spec => {
                    #[allow(unused_mut)]
                    let mut o: spec::$t = try_repo(fp, ty, $x)?;
                    on_state::<spec::BeaconState>(fp, s, |st| spec::$f(st, & $($m)? o, &ctx))
                })
            };
        }
        match self {
            Op::Attestation(x) => ap!(all_forks, Attestation, process_attestation, x),
            Op::ProposerSlashing(x) => ap!(all_forks, ProposerSlashing, process_proposer_slashing, x),
            Op::AttesterSlashing(x) => ap!(all_forks, AttesterSlashing, process_attester_slashing, x),
            Op::Deposit(x) => ap!(all_forks, Deposit, process_deposit, x),
            Op::Exit(x) => ap!(all_forks, SignedVoluntaryExit, process_voluntary_exit, x),
            Op::Sync(x) => ap!(altair_on, SyncAggregate, process_sync_aggregate, x),
            Op::Bls(x) => ap!(capella_on, SignedBlsToExecutionChange, process_bls_to_execution_change, x),
            Op::Withdrawal(x) => ap!(electra_on, ExecutionLayerWithdrawalRequest, process_execution_layer_withdrawal_request, x),
            Op::Receipt(x) => ap!(electra_on, DepositReceipt, process_deposit_receipt, x),
            Op::Consolidation(x) => ap!(electra_on, SignedConsolidation, process_consolidation, x),
        }
    }
    /// put it into a block body
    pub fn push(&self, b: &mut Body) {
        match self.clone() {
            Op::Attestation(x) => b.attestations.push(x),
            Op::ProposerSlashing(x) => b.proposer_slashings.push(x),
            Op::AttesterSlashing(x) => b.attester_slashings.push(x),
            Op::Deposit(x) => b.deposits.push(x),
            Op::Exit(x) => b.voluntary_exits.push(x),
            Op::Sync(x) => b.sync_aggregate = x,
            Op::Bls(x) => b.bls_to_execution_changes.push(x),
            Op::Withdrawal(x) => b.execution_payload.withdrawal_requests.push(x),
            Op::Receipt(x) => b.execution_payload.deposit_receipts.push(x),
            Op::Consolidation(x) => b.consolidations.push(x),
        }
    }
}

/// edit one validator the way histories can leave it
pub fn tweak_validator(src: &mut Src, sp: &Spec, s: &mut State, i: u64) -> String {
    let e = sp.cur(s);
    let delay = sp.c.MIN_VALIDATOR_WITHDRAWABILITY_DELAY;
    let inc = sp.c.k.EFFECTIVE_BALANCE_INCREMENT;
    let pk = s.validators[i as usize].pubkey;
    let v = &mut s.validators[i as usize];
    match src.below(8) {
        0 => {
            v.slashed = true;
            v.exit_epoch = (e + src.below(6)).max(v.activation_epoch.min(e));
            v.withdrawable_epoch = e + sp.c.k.EPOCHS_PER_SLASHINGS_VECTOR;
            format!("validator {i} slashed")
        }
        1 => {
            v.exit_epoch = e + src.below(4);
            v.withdrawable_epoch = v.exit_epoch + delay;
            format!("validator {i} exits at {}", v.exit_epoch)
        }
        2 => {
            v.exit_epoch = e.saturating_sub(delay).max(v.activation_epoch.min(e));
            v.withdrawable_epoch = gen::near(src, e).max(v.exit_epoch);
            format!("validator {i} withdrawable at {}", v.withdrawable_epoch)
        }
        3 => {
            v.activation_epoch = if src.chance(1, 4) { FAR_FUTURE } else { gen::near(src, e) };
            v.activation_eligibility_epoch = v.activation_epoch.saturating_sub(src.below(7)).min(e);
            v.exit_epoch = FAR_FUTURE;
            v.withdrawable_epoch = FAR_FUTURE;
            v.slashed = false;
            format!("validator {i} activates at {}", v.activation_epoch)
        }
        4 => {
            // service period boundary, with eligibility a little earlier
            let p = sp.c.SHARD_COMMITTEE_PERIOD;
            v.activation_epoch = (e + 1).saturating_sub(p + src.below(3));
            v.activation_eligibility_epoch = v.activation_epoch.saturating_sub(src.range(0, 6));
            v.exit_epoch = FAR_FUTURE;
            v.withdrawable_epoch = FAR_FUTURE;
            v.slashed = false;
            format!("validator {i} activated at {}", v.activation_epoch)
        }
        5 => {
            if src.chance(1, 3) {
                // a deposit may carry any first byte
                v.withdrawal_credentials[0] ^= *src.pick(&[1, 2, 3, 0x40]);
            } else {
                v.withdrawal_credentials = gen::creds(src, sp.f, &pk);
            }
            format!("validator {i} credentials {:02x}", v.withdrawal_credentials[0])
        }
        6 => {
            let eff = src.range(0, if sp.f >= Electra { 2048 } else { 32 });
            v.effective_balance = eff * inc;
            format!("validator {i} effective {eff}")
        }
        _ => {
            let b = match src.below(3) {
                0 => 32 * inc + src.below(3) - 1,
                1 => src.below(3),
                _ => src.below(100 * inc),
            };
            s.balances[i as usize] = b;
            format!("validator {i} balance {b}")
        }
    }
}

/// One operation against the specification: valid, or changed in a leaf or two of itself or of its subject.
pub fn op_case(k: Kind, src: &mut Src, obs: &mut Obs) -> CaseResult {
    let f = fork_from(src, k.since());
    op_case_on(k, f, src, obs)
}
pub fn op_case_on(k: Kind, f: Fork, src: &mut Src, obs: &mut Obs) -> CaseResult {
    let c = gen::cfg(src);
    let sp = Spec::new(&c, f);
    let fp = sp.fp();
    let mut s = gen::state(src, &sp, gen::OPS);
    let Some(mut op) = Op::gen(k, src, &sp, &mut s) else {
        obs.label("no subject for an operation");
        return Ok(());
    };
    let mut notes = vec![];
    // the state may move away from the operation …
    if src.chance(1, 4) {
        let mut c = op.subjects(&s);
        if src.chance(1, 5) {
            c = (0..s.validators.len() as u64).collect();
        }
        if !c.is_empty() {
            let i = *src.pick(&c);
            notes.push(tweak_validator(src, &sp, &mut s, i));
            op.sign(&sp, &s);
        }
    }
    // … or the operation from validity
    if src.chance(2, 5) {
        for _ in 0..1 + src.weighted(&[4, 1]) {
            notes.push(op.mutate(src, fp));
        }
        if src.chance(2, 3) {
            op.sign(&sp, &s);
            notes.push("re-signed".into());
        }
    }
    let want = model(|| {
        let mut m = s.clone();
        op.model(&sp, &mut m)?;
        Ok(m)
    });
    let got = op.repo(&c, fp, &s)?;
    let input = || format!("{}; {} {}; changes: {}", brief(&sp, &s), k.name(), cut(&format!("{op:?}")), notes.join(", "));
    obs.hit(format!("{f:?} {} {op:?}", s.slot).as_bytes());
    obs.sample(input);
    if notes.is_empty() && k != Kind::Withdrawal && k != Kind::Receipt {
        obs.label(format!("{} unchanged {}", f.name(), if want.is_ok() { "valid" } else { "invalid" }));
    }
    let changed = matches!(&want, Ok(w) if *w == s);
    if changed {
        obs.label(format!("{} no effect", f.name()));
    }
    judge(fp, k.name(), want, got, obs, input)
}

/// body without content for the state, before the parts a check adds
pub fn empty_body(sp: &Spec, s: &State) -> Body {
    let mut b = Body { eth1_data: s.eth1_data.clone(), execution_payload: sp.default_payload(), ..Default::default() };
    b.sync_aggregate.sync_committee_bits = Bits(vec![false; sp.c.k.SYNC_COMMITTEE_SIZE as usize]);
    b.sync_aggregate.sync_committee_signature = bls::INF_SIG;
    b
}
pub fn repo_operations(c: &Cfg, fp: Fp, s: &State, b: &Body) -> Result<Got<State>, Failure> {
    let ctx = context(c);
    all_forks!(fp.f, spec => {
        let o: spec::BeaconBlockBody = try_repo(fp, "BeaconBlockBody", b)?;
        on_state::<spec::BeaconState>(fp, s, |st| spec::process_operations(st, &o, &ctx))
    })
}
/// Several operations of the given kinds in one body: all are applied, in order, and one bad one spoils the body.
pub fn body_case(kinds: &[Kind], src: &mut Src, obs: &mut Obs) -> CaseResult {
    let since = kinds.iter().map(|k| k.since()).min().unwrap();
    let f = fork_from(src, since);
    let c = gen::cfg(src);
    let sp = Spec::new(&c, f);
    let fp = sp.fp();
    let mut s = gen::state(src, &sp, gen::OPS);
    let mut body = empty_body(&sp, &s);
    let mut ops: Vec<Op> = vec![];
    if kinds.contains(&Kind::Deposit) {
        let m = src.usize(0, 5);
        let ds = gen::deposits(src, &sp, &mut s, m);
        if f >= Electra && src.chance(1, 2) {
            s.deposit_receipts_start_index = match src.below(3) {
                0 => FAR_FUTURE,
                1 => s.eth1_data.deposit_count,
                _ => s.eth1_deposit_index + src.below(m as u64 + 2),
            };
        }
        ops.extend(ds.into_iter().map(Op::Deposit));
    } else {
        // no deposit outstanding
        s.eth1_deposit_index = s.eth1_data.deposit_count;
        if f >= Electra {
            s.deposit_receipts_start_index = FAR_FUTURE;
        }
        let mut probe = s.clone();
        for _ in 0..src.below(5) {
            let ks: Vec<Kind> = kinds.iter().copied().filter(|k| k.since() <= f).collect();
            let k = *src.pick(&ks);
            if let Some(op) = Op::gen(k, src, &sp, &mut probe) {
                let mut t = probe.clone();
                if op.model(&sp, &mut t).is_ok() {
                    probe = t;
                } else if !src.chance(1, 6) {
                    continue;
                }
                ops.push(op);
            }
        }
    }
    let mut notes = String::new();
    match src.weighted(&[6, 1, 1, 1, 1]) {
        0 => {}
        1 => {
            if !ops.is_empty() {
                let i = src.idx(ops.len());
                notes = format!("operation {i}: {}", ops[i].mutate(src, fp));
                ops[i].sign(&sp, &s);
            }
        }
        2 => {
            if !ops.is_empty() {
                let i = src.idx(ops.len());
                notes = format!("drop operation {i}");
                ops.remove(i);
            }
        }
        3 => {
            // the same one twice
            if !ops.is_empty() && ops.len() < 6 {
                let i = src.idx(ops.len());
                notes = format!("repeat operation {i}");
                let o = ops[i].clone();
                ops.insert(i, o);
            }
        }
        _ => {
            if ops.len() > 1 {
                let i = src.idx(ops.len() - 1);
                notes = format!("swap {i}");
                ops.swap(i, i + 1);
            }
        }
    }
    // stay within the list bounds of the body
    let mut used: Vec<Kind> = vec![];
    ops.retain(|o| {
        used.push(o.kind());
        let n = used.iter().filter(|x| **x == o.kind()).count() as u64;
        n <= o.kind().bound(f, &c.k)
    });
    for o in &ops {
        o.push(&mut body);
    }
    let want = model(|| {
        let mut m = s.clone();
        sp.operations(&mut m, &body)?;
        Ok(m)
    });
    let got = repo_operations(&c, fp, &s, &body)?;
    let what = format!("body of {}s", kinds[0].name());
    let input = || format!("{}; {} operations {}; {notes}", brief(&sp, &s), ops.len(), cut(&format!("{ops:?}")));
    if !ops.is_empty() || kinds[0] == Kind::Deposit {
        obs.hit(format!("{f:?} {} {ops:?} {}", s.slot, s.eth1_deposit_index).as_bytes());
    }
    obs.label(format!("{} operations in the body", ops.len()));
    obs.sample(input);
    judge(fp, &what, want, got, obs, input)
}

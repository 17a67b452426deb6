//! C14: signed blocks as a whole
use eccheck::{ops::*, *};
use ethereum_consensus::state_transition::Validation;

fn setup(src: &mut Src) -> (Cfg, Spec, State) {
    let f = fork(src);
    let c = gen::cfg(src);
    let sp = Spec::new(&c, f);
    let s = gen::state(src, &sp, gen::ANY);
    (c, sp, s)
}
/// a block valid on `s` (whose slot is the block's), with its state root and signature; `s` may be adjusted
fn complete(src: &mut Src, sp: &Spec, s: &mut State, ops: u64) -> Option<SignedBlock> {
    let mut b = guard(|| gen::block(src, sp, s, gen::Plan { deposits: true, ops })).ok()?.ok()?;
    root(sp, s, &mut b);
    Some(gen::sign_block(sp, s, &b))
}
/// claim the root the block really leads to
fn root(sp: &Spec, s: &State, b: &mut Block) {
    if let Ok(r) = model(|| {
        let mut m = s.clone();
        sp.process_block(&mut m, b)?;
        Ok(sp.state_root(&m))
    }) {
        b.state_root = r;
    }
}
fn resign(sp: &Spec, s: &State, b: &mut SignedBlock) {
    if b.message.proposer_index < s.validators.len() as u64 {
        *b = gen::sign_block(sp, s, &b.message);
    }
}
fn repo(c: &Cfg, fp: Fp, s: &State, b: &SignedBlock, validate: bool, in_slot: bool) -> Result<Got<State>, Failure> {
    let ctx = context(c);
    let v = if validate { Validation::Enabled } else { Validation::Disabled };
    all_forks!(fp.f, spec => {
        let o: spec::SignedBeaconBlock = try_repo(fp, "SignedBeaconBlock", b)?;
        on_state::<spec::BeaconState>(fp, s, |st| if in_slot { spec::state_transition_block_in_slot(st, &o, v, &ctx) } else { spec::state_transition(st, &o, v, &ctx) })
    })
}
fn strict(fp: Fp, what: &str, want: Result<State, String>, got: Got<State>, obs: &mut Obs, input: impl Fn() -> String) -> CaseResult {
    if let (Err(e), Got::Panic(p)) = (&want, &got) {
        if e == "deposit count below index" && p.contains("subtract with overflow") && matches!(fp.f, Altair | Bellatrix | Deneb) {
            // the generated copies of process_operations, see known-findings.txt
            return fail(format!("generated-copy-deposit-count-{}", fp.f.name()), format!("{what}: {}", input()));
        }
        return fail(format!("panics-{}", fp.f.name()), format!("{what} on {}: a block that must be refused ({e}) made the code panic: {}; input {}", fp.f.name(), cut(p), input()));
    }
    judge(fp, what, want, got, obs, input)
}
/// move `s` to the slot of the block when that is some slots later; returns (state before, state in the block's slot)
fn ahead(src: &mut Src, sp: &Spec, s: State) -> Option<(State, State)> {
    let d = match src.weighted(&[5, 2, 1]) {
        0 => 1,
        1 => src.range(1, 4),
        _ => src.range(1, 20),
    };
    let m = model(|| {
        let mut m = s.clone();
        let to = s.slot + d;
        sp.process_slots(&mut m, to)?;
        Ok(m)
    })
    .ok()?;
    Some((s, m))
}
fn brief_block(b: &SignedBlock) -> String {
    let y = &b.message.body;
    format!(
        "block of slot {} by {}: {} proposer and {} attester slashings, {} attestations, {} deposits, {} exits, {} credential changes, {} consolidations, {} withdrawals",
        b.message.slot,
        b.message.proposer_index,
        y.proposer_slashings.len(),
        y.attester_slashings.len(),
        y.attestations.len(),
        y.deposits.len(),
        y.voluntary_exits.len(),
        y.bls_to_execution_changes.len(),
        y.consolidations.len(),
        y.execution_payload.withdrawals.len()
    )
}
/// a block on a state some slots before it; valid, or changed somewhere
fn whole(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let (c, sp, s) = setup(src);
    let fp = sp.fp();
    let Some((mut pre, mut at)) = ahead(src, &sp, s) else { return Ok(()) };
    let before = at.clone();
    let Some(mut b) = complete(src, &sp, &mut at, 3) else {
        obs.label("no block can be built");
        return Ok(());
    };
    let mut in_slot = src.chance(1, 5);
    if at != before {
        // the block's deposits needed another deposit root: only the state in the slot fits
        in_slot = true;
    }
    if in_slot {
        pre = at.clone();
    }
    let mut note = String::from("none");
    match src.weighted(&[8, 3, 3, 3, 1, 1, 1, 1]) {
        0 => {}
        1 => {
            // somewhere in the message, then signed and rooted again: only the rules can refuse it
            note = gen_change(src, fp, &mut b.message);
            root(&sp, &at, &mut b.message);
            resign(&sp, &at, &mut b);
            note += ", rooted and signed again";
        }
        2 => {
            note = gen_change(src, fp, &mut b.message);
            resign(&sp, &at, &mut b);
            note += ", signed again";
        }
        3 => {
            let (x, p) = gen::mutate_as(src, fp, "SignedBeaconBlock", &b);
            b = x;
            note = p;
        }
        4 => {
            b.message.state_root[src.idx(32)] ^= 1 << src.below(8);
            resign(&sp, &at, &mut b);
            note = "state root".into();
        }
        5 => {
            // signed by somebody else, or for another purpose
            let k = if src.chance(1, 2) { (b.message.proposer_index + 1) % at.validators.len() as u64 } else { b.message.proposer_index };
            let kind = *src.pick(&[DOMAIN_BEACON_PROPOSER, DOMAIN_BEACON_ATTESTER, DOMAIN_RANDAO]);
            let e = sp.epoch_at(b.message.slot) + src.below(2) * 1000;
            b.signature = bls::sign(gen::key_of(&at, k), &signing_root(fp.root("BeaconBlock", &b.message), sp.domain(&at, kind, e)));
            note = format!("signed by {k} with domain {kind:?} of epoch {e}");
        }
        6 => {
            // another slot
            b.message.slot = match src.below(3) {
                0 => b.message.slot.saturating_sub(1),
                1 => b.message.slot + 1,
                _ => pre.slot,
            };
            resign(&sp, &at, &mut b);
            note = "slot".into();
        }
        _ => {
            b.signature = if src.chance(1, 2) { bls::INF_SIG } else { src.arr() };
            note = "signature".into();
        }
    }
    if b.message.slot > pre.slot + 100 {
        // a slot nobody can wait for
        return Ok(());
    }
    let validate = !src.chance(1, 4);
    let want = model(|| {
        let mut m = pre.clone();
        if in_slot {
            sp.transition_in_slot(&mut m, &b, validate)?;
        } else {
            sp.state_transition(&mut m, &b, validate)?;
        }
        Ok(m)
    });
    let got = repo(&c, fp, &pre, &b, validate, in_slot)?;
    let input = || format!("{}; {}; change: {note}; validation {validate}, in slot {in_slot}", brief(&sp, &pre), brief_block(&b));
    obs.hit(format!("{:?} {} {b:?} {validate} {in_slot}", sp.f, pre.slot).as_bytes());
    if note == "none" {
        obs.label(format!("{} unchanged {}", sp.f.name(), if want.is_ok() { "valid" } else { "invalid" }));
    }
    obs.sample(input);
    strict(fp, "block", want, got, obs, input)
}
fn gen_change(src: &mut Src, fp: Fp, b: &mut Block) -> String {
    let mut notes = vec![];
    for _ in 0..1 + src.weighted(&[4, 1]) {
        let (x, p) = gen::mutate_as(src, fp, "BeaconBlock", b);
        *b = x;
        notes.push(p);
    }
    notes.join(", ")
}
/// a block of one operation that is not quite right, everything around it in order
fn operation(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let (c, sp, mut s) = setup(src);
    let fp = sp.fp();
    let kinds: Vec<Kind> = [Kind::Attestation, Kind::ProposerSlashing, Kind::AttesterSlashing, Kind::Exit, Kind::Bls, Kind::Withdrawal, Kind::Receipt, Kind::Consolidation, Kind::Sync].into_iter().filter(|k| k.since() <= sp.f).collect();
    let k = *src.pick(&kinds);
    let Some(mut b) = complete(src, &sp, &mut s, 0) else { return Ok(()) };
    let Some(mut op) = Op::gen(k, src, &sp, &mut s.clone()) else { return Ok(()) };
    let mut note = String::from("none");
    if src.chance(4, 5) {
        note = op.mutate(src, fp);
        if src.chance(2, 3) {
            op.sign(&sp, &s);
            note += ", signed again";
        }
    }
    let y = &b.message.body.execution_payload;
    let present = match k {
        Kind::Withdrawal => y.withdrawal_requests.len() as u64,
        Kind::Receipt => y.deposit_receipts.len() as u64,
        _ => 0,
    };
    if present >= k.bound(sp.f, &c.k) {
        return Ok(());
    }
    op.push(&mut b.message.body);
    root(&sp, &s, &mut b.message);
    resign(&sp, &s, &mut b);
    let want = model(|| {
        let mut m = s.clone();
        sp.transition_in_slot(&mut m, &b, true)?;
        Ok(m)
    });
    let got = repo(&c, fp, &s, &b, true, true)?;
    let input = || format!("{}; {} {}; change: {note}", brief(&sp, &s), k.name(), cut(&format!("{op:?}")));
    obs.hit(format!("{:?} {} {op:?}", sp.f, s.slot).as_bytes());
    obs.sample(input);
    strict(fp, &format!("block with {}", k.name()), want, got, obs, input)
}
/// any block at all
fn hostile(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let (c, sp, mut s) = setup(src);
    let fp = sp.fp();
    let t = fp.ty("SignedBeaconBlock");
    let mut budget = 3000;
    let mut b = SignedBlock::from_v(&gen::value(src, &t, &mut budget), &t);
    // let it get some way in
    let depth = src.below(6);
    if depth >= 1 {
        b.message.slot = s.slot + 1;
    }
    let Some((pre, mut at)) = ahead(src, &sp, s.clone()) else { return Ok(()) };
    s = pre;
    b.message.slot = if depth >= 1 { at.slot } else { b.message.slot.min(s.slot + 40) };
    if depth >= 2 {
        if let Some(g) = complete(src, &sp, &mut at, 0) {
            b.message.proposer_index = g.message.proposer_index;
            b.message.parent_root = g.message.parent_root;
            if depth >= 3 {
                b.message.body.randao_reveal = g.message.body.randao_reveal;
                b.message.body.execution_payload = g.message.body.execution_payload.clone();
                b.message.body.sync_aggregate = g.message.body.sync_aggregate.clone();
            }
            if depth >= 4 {
                b.message.body.deposits = g.message.body.deposits.clone();
                b.message.body.eth1_data = g.message.body.eth1_data.clone();
            }
            if depth >= 5 {
                b.message.body.proposer_slashings.clear();
                b.message.body.attester_slashings.clear();
            }
        }
    }
    resign(&sp, &at, &mut b);
    let validate = src.chance(1, 2);
    let in_slot = src.chance(1, 3);
    let start = if in_slot { &at } else { &s };
    let want = model(|| {
        let mut m = start.clone();
        if in_slot {
            sp.transition_in_slot(&mut m, &b, validate)?;
        } else {
            sp.state_transition(&mut m, &b, validate)?;
        }
        Ok(m)
    });
    let got = repo(&c, fp, start, &b, validate, in_slot)?;
    let input = || format!("{}; depth {depth}, {}", brief(&sp, start), brief_block(&b));
    obs.hit(format!("{:?} {} {b:?} {validate} {in_slot}", sp.f, s.slot).as_bytes());
    obs.sample(input);
    strict(fp, "arbitrary block", want, got, obs, input)
}
/// several blocks one after another, on one state of the code under test
fn chain(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let (c, sp, s) = setup(src);
    let fp = sp.fp();
    let mut m = s.clone();
    let mut blocks = vec![];
    for _ in 0..src.range(2, 10) {
        let Some((_, at)) = ahead(src, &sp, m.clone()) else { break };
        if sp.proposer(&at).map_or(true, |p| at.validators[p as usize].slashed) {
            m = at;
            continue;
        }
        let mut t = at.clone();
        let Some(b) = complete(src, &sp, &mut t, 2) else { break };
        if t != at {
            continue;
        }
        let mut n = at.clone();
        if sp.transition_in_slot(&mut n, &b, true).is_err() {
            // an eth1 vote of this block made its deposits outdated
            m = at;
            continue;
        }
        m = n;
        blocks.push(b);
    }
    if blocks.is_empty() {
        return Ok(());
    }
    let want = model(|| {
        let mut m = s.clone();
        for b in &blocks {
            sp.state_transition(&mut m, b, true)?;
        }
        Ok(m)
    });
    let ctx = context(&c);
    let got = all_forks!(fp.f, spec => {
        let mut os: Vec<spec::SignedBeaconBlock> = vec![];
        for b in &blocks {
            os.push(try_repo(fp, "SignedBeaconBlock", b)?);
        }
        on_state::<spec::BeaconState>(fp, &s, |st| {
            for o in &os {
                spec::state_transition(st, o, Validation::Enabled, &ctx)?;
            }
            Ok(())
        })
    })?;
    let input = || format!("{}; {} blocks to slot {}", brief(&sp, &s), blocks.len(), m.slot);
    obs.hit(format!("{:?} {} {blocks:?}", sp.f, s.slot).as_bytes());
    obs.label(format!("{} blocks", blocks.len()));
    obs.sample(input);
    strict(fp, "chain", want, got, obs, input)
}
fn main() {
    pbt::main(Check {
        property: "C14",
        rule: "A case is a fork, a configuration, a state and a signed block for a later (part whole, arbitrary) or the same slot: valid with operations, changed in a leaf and rooted or signed again, holding one nearly right operation (part operation), or arbitrary (part hostile); or a chain of valid blocks. Non-trivial: the block reached the transition; distinct by fork, slot and block.",
        assumptions: &["bls signatures are modelled by a stand-in with the same algebra (see DESIGN.md)"],
        subs: vec![
            Sub { name: "whole", quick: 9000, thorough: 600000, f: whole },
            Sub { name: "operation", quick: 9000, thorough: 600000, f: operation },
            Sub { name: "hostile", quick: 5000, thorough: 400000, f: hostile },
            Sub { name: "chain", quick: 3000, thorough: 200000, f: chain },
        ],
    })
}

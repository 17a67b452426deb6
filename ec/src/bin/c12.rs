//! C12: execution payloads, withdrawals, credential changes
use eccheck::{ops::*, *};

fn setup(src: &mut Src, from: Fork) -> (Cfg, Spec, State) {
    let f = fork_from(src, from);
    let mut c = gen::cfg(src);
    c.engine = !src.chance(1, 12);
    let sp = Spec::new(&c, f);
    let mut s = gen::state(src, &sp, gen::OPS);
    if f >= Capella && src.chance(2, 3) {
        sweep(src, &sp, &mut s);
    }
    (c, sp, s)
}
/// many withdrawable validators and boundaries of the sweep
fn sweep(src: &mut Src, sp: &Spec, s: &mut State) {
    let e = sp.cur(s);
    let dens = src.range(1, 6);
    let n = s.validators.len();
    for i in 0..n {
        if !src.chance(dens, 8) {
            continue;
        }
        let v = &mut s.validators[i];
        if v.withdrawal_credentials[0] == 0 && src.chance(3, 4) {
            v.withdrawal_credentials = gen::eth1_creds(if sp.f >= Electra && src.bool() { 2 } else { 1 }, &gen::addr(i % gen::ADDRS));
        }
        match src.below(3) {
            0 if i >= 4 => {
                v.exit_epoch = e.saturating_sub(3);
                v.withdrawable_epoch = (e + src.below(3)).saturating_sub(1);
                s.balances[i] = if src.chance(1, 6) { 0 } else { src.below(40 * GWEI) };
            }
            _ => {
                let max = sp.max_eff(v);
                v.effective_balance = if src.chance(1, 8) { max - GWEI } else { max };
                s.balances[i] = (max + src.below(3) + if src.bool() { src.below(GWEI) } else { 0 }).saturating_sub(1);
            }
        }
    }
    if src.chance(1, 4) {
        s.next_withdrawal_validator_index = n as u64 - 1 - src.below(3.min(n as u64));
    }
    if sp.f >= Electra && src.chance(2, 3) {
        s.pending_partial_withdrawals.clear();
        for _ in 0..src.below(6) {
            let i = src.idx(n);
            if src.chance(2, 3) && i >= 4 || src.bool() {
                let v = &mut s.validators[i];
                if v.exit_epoch == FAR_FUTURE {
                    v.withdrawal_credentials = gen::eth1_creds(2, &gen::addr(i % gen::ADDRS));
                    v.effective_balance = *src.pick(&[32, 33, 64, 31]) * GWEI;
                    s.balances[i] = 32 * GWEI + src.below(3) * GWEI + src.below(2);
                }
            }
            s.pending_partial_withdrawals.push(PendingPartialWithdrawal { index: i as u64, amount: src.range(1, 3 * GWEI), withdrawable_epoch: (e + src.weighted(&[6, 1, 1]) as u64).saturating_sub(src.below(2)) });
        }
    }
}
fn body_for(src: &mut Src, sp: &Spec, s: &State) -> Body {
    let mut body = empty_body(sp, s);
    body.execution_payload = gen::payload(src, sp, s);
    if sp.f >= Deneb {
        let n = match src.weighted(&[4, 2, 1]) {
            0 => src.below(7),
            1 => src.range(5, 8),
            _ => src.below(17),
        };
        body.blob_kzg_commitments = (0..n.min(sp.c.k.MAX_BLOB_COMMITMENTS_PER_BLOCK)).map(|_| src.arr()).collect();
    }
    body
}
fn payload(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let (c, sp, s) = setup(src, Bellatrix);
    let fp = sp.fp();
    let f = sp.f;
    let mut body = body_for(src, &sp, &s);
    let p = &mut body.execution_payload;
    let change = match src.weighted(&[5, 1, 1, 1, 1, 2]) {
        0 => "none".to_string(),
        1 => {
            match src.below(3) {
                0 => p.parent_hash = src.arr(),
                1 => p.parent_hash[src.idx(32)] ^= 1,
                _ => p.parent_hash = s.latest_execution_payload_header.parent_hash,
            }
            "parent hash".into()
        }
        2 => {
            p.prev_randao = match src.below(3) {
                0 => src.arr(),
                1 => sp.randao_mix(&s, sp.cur(&s) + 1),
                _ => sp.randao_mix(&s, (sp.cur(&s) + c.k.EPOCHS_PER_HISTORICAL_VECTOR - 1) % c.k.EPOCHS_PER_HISTORICAL_VECTOR),
            };
            "randao".into()
        }
        3 => {
            p.timestamp = match src.below(3) {
                0 => p.timestamp + 1,
                1 => p.timestamp.wrapping_sub(c.SECONDS_PER_SLOT),
                _ => src.edgy(),
            };
            "timestamp".into()
        }
        4 => {
            let k = c.k.MAX_BLOBS_PER_BLOCK + 1;
            if f >= Deneb {
                body.blob_kzg_commitments = (0..k).map(|_| src.arr()).collect();
            }
            "too many blobs".into()
        }
        _ => {
            let (q, path) = gen::mutate_as(src, fp, "ExecutionPayload", p);
            *p = q;
            path
        }
    };
    let want = model(|| {
        let mut m = s.clone();
        sp.execution_payload(&mut m, &body)?;
        Ok(m)
    });
    let ctx = context(&c);
    let got = bellatrix_on!(f, spec => {
        let o: spec::BeaconBlockBody = try_repo(fp, "BeaconBlockBody", &body)?;
        on_state::<spec::BeaconState>(fp, &s, |st| spec::process_execution_payload(st, &o, &ctx))
    })?;
    obs.hit(format!("{f:?} {} {change} {}", s.slot, pbt::hash_bytes(&fp.enc("BeaconBlockBody", &body))).as_bytes());
    let input = || format!("{}; engine {}; {} commitments; change: {change}", brief(&sp, &s), c.engine, body.blob_kzg_commitments.len());
    obs.sample(input);
    judge(fp, "execution payload", want, got, obs, input)
}
fn withdrawals(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let (c, sp, s) = setup(src, Capella);
    let fp = sp.fp();
    let f = sp.f;
    let mut p = gen::payload(src, &sp, &s);
    let ctx = context(&c);
    // what is expected, as the code states it
    let want = sp.expected_withdrawals(&s).0;
    let got: Got<Vec<Withdrawal>> = match f {
        Electra => electra_on!(f, spec => {
            let st: spec::BeaconState = try_repo(fp, "BeaconState", &s)?;
            match run(|| Ok::<_, String>(spec::get_expected_withdrawals(&st, &ctx).0)) { Got::Ok(x) => Got::Ok(x.iter().map(|w| from_repo(fp, "Withdrawal", w)).collect()), Got::Err(e) => Got::Err(e), Got::Panic(e) => Got::Panic(e) }
        }),
        _ => forks!(f, [Capella capella, Deneb deneb], spec => {
            let st: spec::BeaconState = try_repo(fp, "BeaconState", &s)?;
            match run(|| Ok::<_, String>(spec::get_expected_withdrawals(&st, &ctx))) { Got::Ok(x) => Got::Ok(x.iter().map(|w| from_repo(fp, "Withdrawal", w)).collect()), Got::Err(e) => Got::Err(e), Got::Panic(e) => Got::Panic(e) }
        }),
    };
    match got {
        Got::Ok(g) => ensure!(g == want, format!("expected-withdrawals-{}", f.name()), "{}: expected withdrawals {g:?}, want {want:?}; sweep from {}", brief(&sp, &s), s.next_withdrawal_validator_index),
        g => return fail(format!("expected-withdrawals-{}", f.name()), g.kind()),
    }
    let mut change = "none".to_string();
    if src.chance(1, 3) && !p.withdrawals.is_empty() {
        let i = src.idx(p.withdrawals.len());
        change = match src.below(5) {
            0 => {
                p.withdrawals.remove(i);
                "removed".into()
            }
            1 => {
                p.withdrawals[i].amount += 1;
                "amount".into()
            }
            2 => {
                let l = p.withdrawals.len();
                p.withdrawals.swap(i, (i + 1) % l);
                "swap".into()
            }
            3 => {
                let w = p.withdrawals[i].clone();
                if (p.withdrawals.len() as u64) < c.k.MAX_WITHDRAWALS_PER_PAYLOAD {
                    p.withdrawals.push(w);
                }
                "repeated".into()
            }
            _ => {
                let (w, path) = gen::mutate_as(src, fp, "Withdrawal", &p.withdrawals[i]);
                p.withdrawals[i] = w;
                path
            }
        };
    }
    let wantp = model(|| {
        let mut m = s.clone();
        sp.withdrawals(&mut m, &p)?;
        Ok(m)
    });
    let gotp = capella_on!(f, spec => {
        let o: spec::ExecutionPayload = try_repo(fp, "ExecutionPayload", &p)?;
        on_state::<spec::BeaconState>(fp, &s, |st| spec::process_withdrawals(st, &o, &ctx))
    })?;
    obs.label(format!("{} {} withdrawals", f.name(), want.len()));
    if !want.is_empty() {
        obs.hit(format!("{f:?} {} {:?} {change}", s.slot, p.withdrawals).as_bytes());
    }
    let input = || format!("{}; expected {want:?}; change: {change}; sweep from {}", brief(&sp, &s), s.next_withdrawal_validator_index);
    obs.sample(input);
    judge(fp, "withdrawals", wantp, gotp, obs, input)
}
fn change(src: &mut Src, obs: &mut Obs) -> CaseResult {
    op_case(Kind::Bls, src, obs)
}
fn changes(src: &mut Src, obs: &mut Obs) -> CaseResult {
    body_case(&[Kind::Bls], src, obs)
}
/// in a block: header, withdrawal counters and credentials afterwards
fn block(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let (c, sp, mut s) = setup(src, Bellatrix);
    let fp = sp.fp();
    let f = sp.f;
    let Ok(b) = gen::block(src, &sp, &mut s, gen::Plan { deposits: true, ops: 0 }) else { return Ok(()) };
    let want = model(|| {
        let mut m = s.clone();
        sp.process_block(&mut m, &b)?;
        Ok(m)
    });
    let ctx = context(&c);
    let got = bellatrix_on!(f, spec => {
        let o: spec::BeaconBlock = try_repo(fp, "BeaconBlock", &b)?;
        on_state::<spec::BeaconState>(fp, &s, |st| spec::process_block(st, &o, &ctx))
    })?;
    let view = |s: &State| format!("{:?} next {} {} partials {:?}", s.latest_execution_payload_header, s.next_withdrawal_index, s.next_withdrawal_validator_index, s.pending_partial_withdrawals);
    if let (Ok(w), Got::Ok(g)) = (want, got) {
        obs.hit(format!("{f:?} {} {}", s.slot, ssz::hex(&b.body.graffiti)).as_bytes());
        obs.label(format!("{} block", f.name()));
        obs.sample(|| brief(&sp, &s));
        ensure!(view(&w) == view(&g), format!("in-block-{}", f.name()), "{}: got {} expected {}", brief(&sp, &s), steps::cut_diff(&view(&g), &view(&w)), steps::cut_diff(&view(&w), &view(&g)));
    }
    Ok(())
}
fn main() {
    pbt::main(Check {
        property: "C12",
        rule: "A case is a fork from Bellatrix on, a configuration, a state with withdrawable validators and pending withdrawals, and a payload, its withdrawals, or credential changes, valid or changed in one respect. Non-trivial: the step was run (withdrawals: at least one is due); distinct by content.",
        assumptions: &["bls signatures are modelled by a stand-in with the same algebra (see DESIGN.md)"],
        subs: vec![
            Sub { name: "payload", quick: 80000, thorough: 800000, f: payload },
            Sub { name: "withdrawals", quick: 100000, thorough: 1000000, f: withdrawals },
            Sub { name: "change", quick: 60000, thorough: 600000, f: change },
            Sub { name: "changes", quick: 20000, thorough: 200000, f: changes },
            Sub { name: "block", quick: 40000, thorough: 400000, f: block },
        ],
    })
}

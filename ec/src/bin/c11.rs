//! C11: sync aggregates and sync committee selection
use eccheck::{ops::*, steps::*, *};
fn aggregate(src: &mut Src, obs: &mut Obs) -> CaseResult {
    op_case(Kind::Sync, src, obs)
}
/// signatures that are nearly right
fn near_miss(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let f = fork_from(src, Altair);
    let c = gen::cfg(src);
    let sp = Spec::new(&c, f);
    let fp = sp.fp();
    let mut s = gen::state(src, &sp, gen::ANY);
    if src.chance(1, 3) {
        // the previous slot may be under the previous fork version
        s.fork.epoch = sp.cur(&s) + src.below(2);
    }
    if src.chance(1, 3) {
        s.slot = (s.slot / c.k.SLOTS_PER_EPOCH * c.k.SLOTS_PER_EPOCH).max(1);
        s.latest_block_header.slot = s.slot - 1;
    }
    let mut a = gen::sync_aggregate(src, &sp, &s);
    let prev = s.slot.max(1) - 1;
    let mut keys: Vec<u64> = s.current_sync_committee.pubkeys.iter().zip(&a.sync_committee_bits.0).filter(|(_, b)| **b).map(|(p, _)| gen::key_of_pk(p)).collect();
    let n = a.sync_committee_bits.0.len();
    let mut slot = prev;
    let mut epoch = sp.epoch_at(prev);
    let mut kind = DOMAIN_SYNC_COMMITTEE;
    let change = match src.weighted(&[3, 2, 1, 1, 1, 1, 1, 1]) {
        0 => "none",
        1 => {
            // somebody is missing or extra in the bits
            let i = src.idx(n);
            a.sync_committee_bits.0[i] ^= true;
            "one bit"
        }
        2 => {
            slot = prev.saturating_sub(1);
            "block root of another slot"
        }
        3 => {
            epoch = if epoch == sp.cur(&s) { epoch.saturating_sub(1) } else { sp.cur(&s) };
            "other epoch's domain"
        }
        4 => {
            kind = DOMAIN_BEACON_ATTESTER;
            "domain type"
        }
        5 => {
            a.sync_committee_bits.0.iter_mut().for_each(|b| *b = false);
            "empty bits, real signature"
        }
        6 => {
            keys.clear();
            "infinity signature"
        }
        _ => {
            a.sync_committee_signature[src.idx(96)] ^= 1 << src.below(8);
            "signature bytes"
        }
    };
    if change != "signature bytes" {
        if let Ok(root) = sp.block_root_at(&s, slot) {
            let d = sp.domain(&s, kind, epoch);
            a.sync_committee_signature = if keys.is_empty() { bls::INF_SIG } else { bls::sign_all(&keys, &signing_root(root, d)) };
        }
    }
    let op = Op::Sync(a);
    let want = model(|| {
        let mut m = s.clone();
        op.model(&sp, &mut m)?;
        Ok(m)
    });
    let got = op.repo(&c, fp, &s)?;
    obs.label(format!("change: {change}"));
    obs.hit(format!("{f:?} {} {op:?}", s.slot).as_bytes());
    let input = || format!("{}; change: {change}", brief(&sp, &s));
    obs.sample(input);
    judge(fp, "sync aggregate", want, got, obs, input)
}
/// low and high balances of participants and proposer
fn rewards(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let f = fork_from(src, Altair);
    let c = gen::cfg(src);
    let sp = Spec::new(&c, f);
    let fp = sp.fp();
    let mut s = gen::state(src, &sp, gen::ANY);
    for b in s.balances.iter_mut() {
        if src.chance(1, 2) {
            *b = src.below(4000);
        }
    }
    if src.chance(1, 2) {
        // the proposer sits in the committee, more than once
        if let Ok(p) = sp.proposer(&s) {
            let k = s.validators[p as usize].pubkey;
            for _ in 0..src.range(1, 4) {
                let i = src.idx(s.current_sync_committee.pubkeys.len());
                s.current_sync_committee.pubkeys[i] = k;
            }
            s.current_sync_committee.aggregate_pubkey = bls::agg_pk(&s.current_sync_committee.pubkeys).unwrap();
        }
    }
    let op = Op::Sync(gen::sync_aggregate(src, &sp, &s));
    let want = model(|| {
        let mut m = s.clone();
        op.model(&sp, &mut m)?;
        Ok(m)
    });
    let got = op.repo(&c, fp, &s)?;
    obs.hit(format!("{f:?} {} {op:?}", s.slot).as_bytes());
    obs.sample(|| brief(&sp, &s));
    judge(fp, "sync rewards", want, got, obs, || brief(&sp, &s))
}
fn selection(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let f = fork_from(src, Altair);
    let c = gen::cfg(src);
    let sp = Spec::new(&c, f);
    let fp = sp.fp();
    let mut s = gen::state(src, &sp, gen::ANY);
    if src.chance(1, 2) {
        // low balances make the sampling reject
        let top = src.range(1, 32);
        for v in s.validators.iter_mut().skip(4) {
            v.effective_balance = src.range(0, top) * GWEI;
        }
    }
    let ctx = context(&c);
    let want = model(|| Ok((sp.next_sync_indices(&s)?, sp.next_sync_committee(&s)?)));
    let got: Got<(Vec<u64>, SyncCommittee)> = altair_on!(f, spec => {
        let st: spec::BeaconState = try_repo(fp, "BeaconState", &s)?;
        match run(|| Ok::<_, ethereum_consensus::Error>((spec::get_next_sync_committee_indices(&st, &ctx)?, spec::get_next_sync_committee(&st, &ctx)?))) {
            Got::Ok((i, k)) => Got::Ok((i.into_iter().map(|x| x as u64).collect(), from_repo(fp, "SyncCommittee", &k))),
            Got::Err(e) => Got::Err(e),
            Got::Panic(p) => Got::Panic(p),
        }
    });
    let Ok((wi, wk)) = want else { return Ok(()) };
    obs.hit(format!("{f:?} {wi:?}").as_bytes());
    obs.sample(|| format!("{}: committee starts with {:?}", brief(&sp, &s), &wi[..6]));
    match got {
        Got::Ok((gi, gk)) => {
            ensure!(wi == gi, format!("selection-{}", f.name()), "{}: members {gi:?}, expected {wi:?}", brief(&sp, &s));
            ensure!(wk == gk, format!("selection-keys-{}", f.name()), "{}: committee keys or aggregate differ for members {wi:?}", brief(&sp, &s));
            Ok(())
        }
        g => fail(format!("selection-{}", f.name()), format!("{}: {}", brief(&sp, &s), g.kind())),
    }
}
fn rotation(src: &mut Src, obs: &mut Obs) -> CaseResult {
    step_case(Step::SyncCommittee, src, obs, |src, sp, s| {
        let per = sp.c.k.EPOCHS_PER_SYNC_COMMITTEE_PERIOD;
        if src.chance(2, 3) {
            let e = sp.cur(s);
            let d = ((e / per + 1) * per - 1 - e) * sp.c.k.SLOTS_PER_EPOCH;
            s.slot += d;
            s.latest_block_header.slot += d;
        }
    })
}
/// the aggregate is applied as part of the block
fn block(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let f = fork_from(src, Altair);
    let c = gen::cfg(src);
    let sp = Spec::new(&c, f);
    let fp = sp.fp();
    let mut s = gen::state(src, &sp, gen::ANY);
    let Ok(b) = gen::block(src, &sp, &mut s, gen::Plan { deposits: true, ops: 0 }) else { return Ok(()) };
    let want = model(|| {
        let mut m = s.clone();
        sp.process_block(&mut m, &b)?;
        Ok(m)
    });
    let ctx = context(&c);
    let got = altair_on!(f, spec => {
        let o: spec::BeaconBlock = try_repo(fp, "BeaconBlock", &b)?;
        on_state::<spec::BeaconState>(fp, &s, |st| spec::process_block(st, &o, &ctx))
    })?;
    if let (Ok(w), Got::Ok(g)) = (want, got) {
        obs.hit(format!("{f:?} {} {:?}", s.slot, b.body.sync_aggregate.sync_committee_bits).as_bytes());
        obs.sample(|| brief(&sp, &s));
        ensure!(w.balances == g.balances, format!("in-block-{}", f.name()), "{}: balances after the block differ: {}", brief(&sp, &s), state_diff(fp, &g, &w));
    }
    Ok(())
}
fn main() {
    pbt::main(Check {
        property: "C11",
        rule: "A case is a fork from Altair on, a configuration, a state and a sync aggregate (valid, changed in a leaf, or signed nearly right), or the selection of the next committee. Non-trivial: the code under test was run on it; distinct by content.",
        assumptions: &["bls signatures are modelled by a stand-in with the same algebra (see DESIGN.md)"],
        subs: vec![
            Sub { name: "aggregate", quick: 40000, thorough: 400000, f: aggregate },
            Sub { name: "near-miss", quick: 40000, thorough: 400000, f: near_miss },
            Sub { name: "rewards", quick: 25000, thorough: 250000, f: rewards },
            Sub { name: "selection", quick: 20000, thorough: 200000, f: selection },
            Sub { name: "rotation", quick: 10000, thorough: 100000, f: rotation },
            Sub { name: "block", quick: 15000, thorough: 150000, f: block },
        ],
    })
}

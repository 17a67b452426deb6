//! C06: block header, randao reveal, eth1 vote
use eccheck::{ops::empty_body, *};

fn setup(src: &mut Src) -> (Cfg, Spec, State) {
    let f = fork(src);
    let c = gen::cfg(src);
    let sp = Spec::new(&c, f);
    let s = gen::state(src, &sp, gen::ANY);
    (c, sp, s)
}
fn some_block(src: &mut Src, sp: &Spec, s: &State) -> R<Block> {
    let mut b = Block { slot: s.slot, proposer_index: sp.proposer(s)?, parent_root: sp.header_root(&s.latest_block_header), state_root: src.arr(), body: empty_body(sp, s) };
    b.body.graffiti = src.arr();
    b.body.randao_reveal = src.arr();
    Ok(b)
}
fn header(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let (c, sp, mut s) = setup(src);
    let fp = sp.fp();
    let f = sp.f;
    let Ok(mut b) = some_block(src, &sp, &s) else { return Ok(()) };
    let n = s.validators.len() as u64;
    let change = match src.weighted(&[5, 1, 1, 2, 2, 2, 1, 1, 1]) {
        0 => "none",
        1 => {
            b.slot = (b.slot + src.below(3)).saturating_sub(1);
            "slot"
        }
        2 => {
            b.slot = src.edgy();
            "slot"
        }
        3 => {
            // the latest block is this slot's or later
            s.latest_block_header.slot = s.slot + src.below(2);
            b.parent_root = sp.header_root(&s.latest_block_header);
            "latest header"
        }
        4 => {
            b.proposer_index = match src.below(3) {
                0 => src.below(n),
                1 => (b.proposer_index + 1) % n,
                _ => n + src.below(2),
            };
            "proposer"
        }
        5 => {
            match src.below(4) {
                0 => b.parent_root = src.arr(),
                1 => b.parent_root[src.idx(32)] ^= 1,
                2 => b.parent_root = s.latest_block_header.parent_root,
                // the root of the header once its state root is filled in, or not
                _ => {
                    let mut h = s.latest_block_header.clone();
                    h.state_root = if h.state_root == [0; 32] { [1; 32] } else { [0; 32] };
                    b.parent_root = sp.header_root(&h);
                }
            }
            "parent"
        }
        6 => {
            let i = b.proposer_index as usize;
            s.validators[i].slashed = true;
            "proposer slashed"
        }
        7 => {
            s.latest_block_header.state_root = [0; 32];
            b.parent_root = sp.header_root(&s.latest_block_header);
            "empty latest state root"
        }
        _ => {
            let (nb, _) = gen::mutate_as(src, fp, "BeaconBlock", &b);
            b = nb;
            "any field"
        }
    };
    let want = model(|| {
        let mut m = s.clone();
        sp.block_header(&mut m, &b)?;
        Ok(m)
    });
    let ctx = context(&c);
    let got = all_forks!(f, spec => {
        let o: spec::BeaconBlock = try_repo(fp, "BeaconBlock", &b)?;
        on_state::<spec::BeaconState>(fp, &s, |st| spec::process_block_header(st, &o, &ctx))
    })?;
    obs.label(format!("change {change}"));
    obs.hit(format!("{f:?} {} {change} {}", s.slot, pbt::hash_bytes(&fp.enc("BeaconBlock", &b))).as_bytes());
    let input = || format!("{}; block slot {} proposer {} parent {}; change: {change}", brief(&sp, &s), b.slot, b.proposer_index, ssz::hex(&b.parent_root));
    obs.sample(input);
    judge(fp, "block header", want, got, obs, input)
}
fn randao(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let (c, sp, mut s) = setup(src);
    let fp = sp.fp();
    let f = sp.f;
    let Ok(p) = sp.proposer(&s) else { return Ok(()) };
    let e = sp.cur(&s);
    if src.chance(1, 4) {
        s.fork.epoch = e + src.below(2);
    }
    let mut body = empty_body(&sp, &s);
    let (mut who, mut epoch, mut kind, mut root) = (p, e, DOMAIN_RANDAO, s.genesis_validators_root);
    let mut domain_epoch = e;
    let change = match src.weighted(&[4, 1, 1, 1, 1, 1, 1]) {
        0 => "none",
        1 => {
            who = src.below(s.validators.len() as u64);
            "signer"
        }
        2 => {
            epoch = (e + src.below(3)).saturating_sub(1);
            "epoch"
        }
        3 => {
            kind = DOMAIN_BEACON_PROPOSER;
            "domain type"
        }
        4 => {
            root = src.arr();
            "genesis root"
        }
        5 => {
            domain_epoch = e.saturating_sub(1);
            "fork version"
        }
        _ => "bytes",
    };
    let version = if domain_epoch < s.fork.epoch { s.fork.previous_version } else { s.fork.current_version };
    let d = compute_domain(kind, version, &root);
    body.randao_reveal = bls::sign(gen::key_of(&s, who), &signing_root(u64_root(epoch), d));
    if change == "bytes" {
        body.randao_reveal = src.arr();
    }
    let want = model(|| {
        let mut m = s.clone();
        sp.randao(&mut m, &body.randao_reveal)?;
        Ok(m)
    });
    let ctx = context(&c);
    let got = all_forks!(f, spec => {
        let o: spec::BeaconBlockBody = try_repo(fp, "BeaconBlockBody", &body)?;
        on_state::<spec::BeaconState>(fp, &s, |st| spec::process_randao(st, &o, &ctx))
    })?;
    obs.label(format!("change {change}"));
    obs.hit(format!("{f:?} {} {change} {who}", s.slot).as_bytes());
    let input = || format!("{}; fork epoch {}, reveal by {who} over epoch {epoch}; change: {change}", brief(&sp, &s), s.fork.epoch);
    obs.sample(input);
    judge(fp, "randao", want, got, obs, input)
}
fn eth1(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let (c, sp, mut s) = setup(src);
    let fp = sp.fp();
    let f = sp.f;
    let period = c.k.EPOCHS_PER_ETH1_VOTING_PERIOD * c.k.SLOTS_PER_EPOCH;
    let mut body = empty_body(&sp, &s);
    let pool: Vec<Eth1Data> = (0..3)
        .map(|i| {
            let mut d = gen::eth1_data(src);
            if i > 0 && src.chance(1, 2) {
                d.deposit_count = 7;
                d.deposit_root = [3; 32];
                // votes that differ only in the block hash
            }
            d
        })
        .collect();
    // a vote count next to the majority
    let major = src.range(period / 2 - 2, period / 2 + 1).min(period - 1);
    let other = src.below(period - major);
    s.eth1_data_votes = (0..major).map(|_| pool[0].clone()).chain((0..other).map(|i| pool[1 + (i % 2) as usize].clone())).collect();
    if src.bool() {
        s.eth1_data_votes.reverse();
    }
    body.eth1_data = pool[src.weighted(&[4, 1, 1])].clone();
    let want = model(|| {
        let mut m = s.clone();
        sp.eth1(&mut m, &body.eth1_data)?;
        Ok(m)
    });
    let ctx = context(&c);
    let got = all_forks!(f, spec => {
        let o: spec::BeaconBlockBody = try_repo(fp, "BeaconBlockBody", &body)?;
        on_state::<spec::BeaconState>(fp, &s, |st| steps::Outcome::outcome(spec::process_eth1_data(st, &o, &ctx)))
    })?;
    obs.label(format!("{}", if matches!(&want, Ok(w) if w.eth1_data != s.eth1_data) { "adopted" } else { "recorded" }));
    obs.hit(format!("{f:?} {major} {other} {:?}", body.eth1_data).as_bytes());
    let input = || format!("{}; {major} and {other} votes", brief(&sp, &s));
    obs.sample(input);
    judge(fp, "eth1 vote", want, got, obs, input)
}
/// the three steps inside a block
fn block(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let (c, sp, mut s) = setup(src);
    let fp = sp.fp();
    let f = sp.f;
    let Ok(b) = gen::block(src, &sp, &mut s, gen::Plan { deposits: true, ops: 0 }) else { return Ok(()) };
    let want = model(|| {
        let mut m = s.clone();
        sp.process_block(&mut m, &b)?;
        Ok(m)
    });
    let ctx = context(&c);
    let got = all_forks!(f, spec => {
        let o: spec::BeaconBlock = try_repo(fp, "BeaconBlock", &b)?;
        on_state::<spec::BeaconState>(fp, &s, |st| spec::process_block(st, &o, &ctx))
    })?;
    let view = |s: &State| format!("{:?} {:?} {:?} {:?}", s.latest_block_header, sp.randao_mix(s, sp.cur(s)), s.eth1_data, s.eth1_data_votes);
    if let (Ok(w), Got::Ok(g)) = (want, got) {
        obs.hit(format!("{f:?} {} {}", s.slot, ssz::hex(&b.body.graffiti)).as_bytes());
        obs.label(format!("{} block", f.name()));
        obs.sample(|| brief(&sp, &s));
        ensure!(view(&w) == view(&g), format!("in-block-{}", f.name()), "{}: header, randao or eth1 data after the block: got {} expected {}", brief(&sp, &s), steps::cut_diff(&view(&g), &view(&w)), steps::cut_diff(&view(&w), &view(&g)));
    }
    Ok(())
}
fn main() {
    pbt::main(Check {
        property: "C06",
        rule: "A case is a fork, configuration, state and a block header, a randao reveal or an eth1 vote, valid or changed in one respect, or a whole block without operations. Non-trivial: the step was run; distinct by content.",
        assumptions: &["bls signatures are modelled by a stand-in with the same algebra (see DESIGN.md)"],
        subs: vec![
            Sub { name: "header", quick: 48000, thorough: 480000, f: header },
            Sub { name: "randao", quick: 40000, thorough: 400000, f: randao },
            Sub { name: "eth1", quick: 32000, thorough: 320000, f: eth1 },
            Sub { name: "block", quick: 24000, thorough: 240000, f: block },
        ],
    })
}

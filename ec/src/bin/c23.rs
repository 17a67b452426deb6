//! C23: domains and signing roots
use ec::{
    crypto::SecretKey,
    primitives::{BlsPublicKey, BlsSignature, DomainType, Root},
    signing,
};
use eccheck::{ssz::sha, *};

/// the purposes, with the four bytes the specifications give them
const TYPES: [(DomainType, &str, [u8; 4]); 14] = [
    (DomainType::BeaconProposer, "BeaconProposer", [0, 0, 0, 0]),
    (DomainType::BeaconAttester, "BeaconAttester", [1, 0, 0, 0]),
    (DomainType::Randao, "Randao", [2, 0, 0, 0]),
    (DomainType::Deposit, "Deposit", [3, 0, 0, 0]),
    (DomainType::VoluntaryExit, "VoluntaryExit", [4, 0, 0, 0]),
    (DomainType::SelectionProof, "SelectionProof", [5, 0, 0, 0]),
    (DomainType::AggregateAndProof, "AggregateAndProof", [6, 0, 0, 0]),
    (DomainType::SyncCommittee, "SyncCommittee", [7, 0, 0, 0]),
    (DomainType::SyncCommitteeSelectionProof, "SyncCommitteeSelectionProof", [8, 0, 0, 0]),
    (DomainType::ContributionAndProof, "ContributionAndProof", [9, 0, 0, 0]),
    (DomainType::BlsToExecutionChange, "BlsToExecutionChange", [10, 0, 0, 0]),
    (DomainType::Consolidation, "Consolidation", [11, 0, 0, 0]),
    (DomainType::ApplicationMask, "ApplicationMask", [0, 0, 0, 1]),
    (DomainType::ApplicationBuilder, "ApplicationBuilder", [0, 0, 0, 1]),
];
fn data_root(version: [u8; 4], root: &H) -> H {
    let mut v = [0u8; 32];
    v[..4].copy_from_slice(&version);
    sha(&[&v, root])
}
fn domain_of(t: [u8; 4], version: [u8; 4], root: &H) -> H {
    let r = data_root(version, root);
    let mut d = [0u8; 32];
    d[..4].copy_from_slice(&t);
    d[4..].copy_from_slice(&r[..28]);
    d
}
fn h(b: &[u8]) -> H {
    b.try_into().unwrap()
}
fn root(b: &H) -> Root {
    Root::try_from(b.as_slice()).unwrap()
}
fn some_root(src: &mut Src) -> H {
    match src.below(4) {
        0 => [0; 32],
        1 => {
            let mut a = [0; 32];
            a[src.idx(32)] = 1 << src.below(8);
            a
        }
        _ => src.arr(),
    }
}
fn version(src: &mut Src) -> [u8; 4] {
    match src.below(3) {
        0 => [src.below(6) as u8, 0, 0, src.below(2) as u8],
        _ => src.arr(),
    }
}
/// compute_domain and its parts
fn domains(src: &mut Src, obs: &mut Obs) -> CaseResult {
    use ec::phase0 as p;
    let (t, name, bytes) = TYPES[src.idx(TYPES.len())];
    let (t2, name2, bytes2) = TYPES[src.idx(TYPES.len())];
    let mut ctx = context(&if src.bool() { Cfg::minimal() } else { Cfg::mainnet() });
    let g = version(src);
    ctx.genesis_fork_version = g;
    let v = src.chance(3, 4).then(|| version(src));
    let r = src.chance(3, 4).then(|| some_root(src));
    obs.hit(format!("{name} {name2} {g:?} {v:?} {r:?}").as_bytes());
    obs.label(name);
    obs.sample(|| format!("{name}, version {v:?}, genesis version {g:?}, genesis root {:?}", r.map(|r| ssz::hex(&r))));
    let (wv, wr) = (v.unwrap_or(g), r.unwrap_or([0; 32]));
    let who = format!("{name}, version {v:?}, genesis version {g:?}, root {r:?}");
    ensure_eq!(t.as_bytes(), bytes, "domain-type", "bytes of {name}");
    let call = |t, v, r: Option<H>| run(|| p::compute_domain(t, v, r.as_ref().map(root), &ctx));
    let d = match call(t, v, r) {
        Got::Ok(d) => h(d.as_ref()),
        x => return fail("compute-domain", format!("{who}: {}", x.kind())),
    };
    ensure_eq!(d, domain_of(bytes, wv, &wr), "domain", "domain of {who}");
    match run(|| p::compute_fork_data_root(wv, root(&wr))) {
        Got::Ok(x) => ensure_eq!(h(x.as_ref()), data_root(wv, &wr), "fork-data-root", "{who}"),
        x => return fail("fork-data-root", format!("{who}: {}", x.kind())),
    }
    match run(|| p::compute_fork_digest(wv, root(&wr))) {
        Got::Ok(x) => ensure!(x.as_ref() as &[u8] == &data_root(wv, &wr)[..4], "fork-digest", "{who}: digest {x:?}"),
        x => return fail("fork-digest", format!("{who}: {}", x.kind())),
    }
    // separation: change one part, or more
    let (mut t3, mut b3, mut v3, mut r3) = (t, bytes, wv, wr);
    let m = src.range(1, 7);
    if m & 1 > 0 {
        (t3, b3) = (t2, bytes2);
    }
    if m & 2 > 0 {
        v3[src.idx(4)] ^= 1 << src.below(8);
    }
    if m & 4 > 0 {
        r3[src.idx(32)] ^= 1 << src.below(8);
    }
    if (b3, v3, r3) != (bytes, wv, wr) {
        match call(t3, Some(v3), Some(r3)) {
            Got::Ok(x) => ensure!(h(x.as_ref()) != d, "separation", "{who} has the domain of {b3:?}, version {v3:?}, root {r3:?}"),
            x => return fail("compute-domain", format!("{who}: {}", x.kind())),
        }
    }
    match run(|| ec::builder::compute_builder_domain(&ctx)) {
        Got::Ok(x) => ensure_eq!(h(x.as_ref()), domain_of([0, 0, 0, 1], g, &[0; 32]), "builder-domain", "genesis version {g:?}"),
        x => return fail("builder-domain", x.kind()),
    }
    Ok(())
}
/// the domain by a state's fork record
fn states(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let f = fork(src);
    let (t, name, bytes) = TYPES[src.idx(TYPES.len())];
    let cfg = Cfg::minimal();
    let ctx = context(&cfg);
    let (prev, cur) = (version(src), version(src));
    let at = match src.below(4) {
        0 => 0,
        1 => src.below(10),
        2 => u64::MAX,
        _ => src.edgy(),
    };
    let spe = 8;
    let epoch = match src.below(6) {
        0 => None,
        1 => Some(at),
        2 => Some(at.saturating_sub(1)),
        3 => Some(at.saturating_add(1)),
        _ => Some(src.edgy()),
    };
    let slot = match src.below(4) {
        0 => src.edgy(),
        1 => at.saturating_mul(spe),
        2 => at.saturating_mul(spe).saturating_sub(1),
        _ => at.saturating_mul(spe).saturating_add(src.below(8)),
    };
    let r = some_root(src);
    obs.hit(format!("{f:?} {name} {prev:?} {cur:?} {at} {epoch:?} {slot} {r:?}").as_bytes());
    obs.label(format!("{} {}", f.name(), if epoch.unwrap_or(slot / spe) < at { "before the fork's epoch" } else { "from the fork's epoch on" }));
    obs.sample(|| format!("{} {name}, fork epoch {at}, epoch {epoch:?}, slot {slot}", f.name()));
    let want = domain_of(bytes, if epoch.unwrap_or(slot / spe) < at { prev } else { cur }, &r);
    let got = all_forks!(f, spec => {
        thread_local!(static S: std::cell::RefCell<Option<spec::BeaconState>> = const { std::cell::RefCell::new(None) });
        S.with_borrow_mut(|s| {
            let s = s.get_or_insert_with(Default::default);
            s.fork = spec::Fork { previous_version: prev, current_version: cur, epoch: at };
            s.slot = slot;
            s.genesis_validators_root = root(&r);
            run(|| spec::get_domain(s, t, epoch, &ctx)).map(|d| h(d.as_ref()))
        })
    });
    match got {
        Got::Ok(d) => ensure_eq!(d, want, format!("get-domain-{}", f.name()), "{} {name}: fork {prev:?} -> {cur:?} at epoch {at}, epoch {epoch:?}, slot {slot}, root {r:?}", f.name()),
        x => return fail(format!("get-domain-{}", f.name()), format!("{name}: {}", x.kind())),
    }
    Ok(())
}
struct Msg {
    name: &'static str,
    fork: Fork,
    /// type in the notation of the schema
    ty: &'static str,
    run: fn(&[u8], &H, &SecretKey) -> Result<(Got<H>, Got<Vec<u8>>), Failure>,
    verify: fn(&[u8], &H, &[u8], &[u8]) -> Got<()>,
}
macro_rules! msgs {
    ($($f:ident $ty:literal $t:ty),* $(,)?) => { vec![ $( Msg {
        name: stringify!($t), fork: $f, ty: $ty,
        run: |b, d, k| {
            let o = match <$t as ssz_rs::Deserialize>::deserialize(b) { Ok(o) => o, Err(e) => return fail("ssz", format!("{}: {e:?}", $ty)) };
            let d = *d;
            Ok((run(|| signing::compute_signing_root(&o, d)).map(|r| h(r.as_ref())), run(|| signing::sign_with_domain(&o, k, d)).map(|s| s.as_ref().to_vec())))
        },
        verify: |b, d, s, p| {
            let o = <$t as ssz_rs::Deserialize>::deserialize(b).unwrap();
            let s = BlsSignature::try_from(s).unwrap();
            let p = BlsPublicKey::try_from(p).unwrap();
            run(|| signing::verify_signed_data(&o, &s, &p, *d))
        },
    } ),* ] }
}
fn all_msgs() -> &'static [Msg] {
    static M: std::sync::OnceLock<Vec<Msg>> = std::sync::OnceLock::new();
    M.get_or_init(|| {
        msgs! {
            Phase0 "BeaconBlockHeader" ec::phase0::BeaconBlockHeader,
            Phase0 "AttestationData" ec::phase0::AttestationData,
            Phase0 "VoluntaryExit" ec::phase0::VoluntaryExit,
            Phase0 "DepositMessage" ec::phase0::DepositMessage,
            Phase0 "Checkpoint" ec::phase0::Checkpoint,
            Phase0 "u64" u64,
            Phase0 "Bytes32" Root,
            Phase0 "BeaconBlock" ec::phase0::minimal::BeaconBlock,
            Phase0 "AggregateAndProof" ec::phase0::minimal::AggregateAndProof,
            Altair "ContributionAndProof" ec::altair::minimal::ContributionAndProof,
            Altair "SyncAggregatorSelectionData" ec::altair::SyncAggregatorSelectionData,
            Capella "BLSToExecutionChange" ec::capella::BlsToExecutionChange,
            Deneb "BeaconBlock" ec::deneb::minimal::BeaconBlock,
            Electra "Consolidation" ec::electra::Consolidation,
        }
    })
}
fn signing_of(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let ms = all_msgs();
    let m = &ms[src.idx(ms.len())];
    let t = schema::parse(Minimal, m.fork, m.ty);
    let mut budget = 60;
    let v = gen::value(src, &t, &mut budget);
    let b = ssz::encode(&v, &t);
    let object = ssz::htr(&v, &t);
    let d: H = some_root(src);
    let k = src.below(6);
    let sk = SecretKey::try_from(bls::sk(k).to_be().as_slice()).unwrap();
    obs.hit(&b);
    obs.hit(&d);
    obs.hit(&[k as u8]);
    obs.label(m.ty);
    obs.sample(|| format!("{} of {} bytes under domain {}", m.ty, b.len(), ssz::hex(&d)));
    let who = format!("{} {} under domain {}", m.name, ssz::hex(&b), ssz::hex(&d));
    let want = sha(&[&object, &d]);
    let (sr, sig) = (m.run)(&b, &d, &sk)?;
    match sr {
        Got::Ok(r) => ensure_eq!(r, want, "signing-root", "{who}"),
        x => return fail("signing-root", format!("{who}: {}", x.kind())),
    }
    let sig = match sig {
        Got::Ok(s) => s,
        x => return fail("sign", format!("{who}: {}", x.kind())),
    };
    ensure_eq!(sig, bls::sign(k, &want).to_vec(), "sign", "{who}: signature of key {k}");
    ensure!(matches!((m.verify)(&b, &d, &sig, &bls::pk(k)), Got::Ok(())), "verify", "{who}: the signature does not verify");
    // one thing changed
    let (mut b2, mut d2, mut s2, mut k2) = (b.clone(), d, sig.clone(), k);
    let what = src.below(4);
    match what {
        0 => d2[src.idx(32)] ^= 1 << src.below(8),
        1 => k2 = (k + 1 + src.below(5)) % 6,
        2 => {
            let i = src.idx(96);
            s2[i] ^= 1 << src.below(8)
        }
        _ => {
            let mut budget = 60;
            let v2 = gen::value(src, &t, &mut budget);
            if ssz::htr(&v2, &t) != object {
                b2 = ssz::encode(&v2, &t);
            } else {
                k2 = (k + 1) % 6;
            }
        }
    }
    match (m.verify)(&b2, &d2, &s2, &bls::pk(k2)) {
        Got::Err(_) => Ok(()),
        x => fail("verify-other", format!("{who}: verified with part {what} changed: {}", x.kind())),
    }
}
fn main() {
    pbt::main(Check {
        property: "C23",
        rule: "A case is a purpose, fork version and genesis root (compared with the definition, and with a second triple that differs); or a state's fork record, an epoch around it and a purpose, per fork; or an object of one of 14 message types, a domain and a key, with one part changed. Every case is non-trivial: it reaches the comparison. Distinct by content.",
        assumptions: &["sha256 has no collisions among the cases", "signatures are those of the stand-in for blst"],
        subs: vec![
            Sub { name: "domains", quick: 1000000, thorough: 10000000, f: domains },
            Sub { name: "states", quick: 1000000, thorough: 10000000, f: states },
            Sub { name: "signing", quick: 300000, thorough: 3000000, f: signing_of },
        ],
    })
}

//! C26: blobs, commitments, proofs, sidecars
use ec::{
    crypto::kzg::{self, KzgCommitment, KzgProof, KzgSettings},
    primitives::Bytes32,
};
use eccheck::{ssz::sha, *};
use std::sync::Arc;
use vfr::{encode_off_group, Fr};

const N: usize = 4096;
const R: [u8; 32] = [
    0x73, 0xed, 0xa7, 0x53, 0x29, 0x9d, 0x7d, 0x48, 0x33, 0x39, 0xd8, 0x08, 0x09, 0xa1, 0xd8, 0x05, 0x53, 0xbd, 0xa4, 0x02, 0xff, 0xfe, 0x5b,
    0xfe, 0xff, 0xff, 0xff, 0xff, 0x00, 0x00, 0x00, 0x01,
];
fn settings() -> Arc<KzgSettings> {
    kzg::kzg_settings_with_precompute_arc(kzg::PRECOMPUTE)
}
/// root of unity at the position `i` of a blob
fn root_at(i: usize) -> Fr {
    let rev = (i as u32).reverse_bits() >> 20;
    Fr::root_of_unity(N as u64).pow([rev as u64, 0, 0, 0])
}
fn element(src: &mut Src) -> Fr {
    match src.below(6) {
        0 => Fr::ZERO,
        1 => Fr::ONE,
        2 => Fr::ZERO.sub(&Fr::ONE),
        _ => Fr::reduce_be(&src.arr::<32>()),
    }
}
fn blob(src: &mut Src) -> (Vec<u8>, &'static str) {
    let mut b = vec![0u8; 32 * N];
    let kind = match src.below(6) {
        0 => "zero",
        1 => {
            let e = element(src).to_be();
            b.chunks_mut(32).for_each(|c| c.copy_from_slice(&e));
            "constant"
        }
        2 | 3 => {
            for _ in 0..src.range(1, 5) {
                let i = match src.below(4) {
                    0 => 0,
                    1 => N - 1,
                    _ => src.idx(N),
                };
                b[32 * i..32 * i + 32].copy_from_slice(&element(src).to_be());
            }
            "sparse"
        }
        _ => {
            let mut x = src.u64() | 1;
            for c in b.chunks_mut(32) {
                for w in c.chunks_mut(8) {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    w.copy_from_slice(&x.to_be_bytes());
                }
                c[0] &= 0x3f;
            }
            "dense"
        }
    };
    (b, kind)
}
fn commit(b: &[u8]) -> Result<KzgCommitment, Failure> {
    match run(|| kzg::blob_to_kzg_commitment(b, &settings())) {
        Got::Ok(c) => Ok(c),
        x => fail("commit", format!("commitment of a valid blob: {}", x.kind())),
    }
}
fn prove(b: &[u8], c: &KzgCommitment) -> Result<KzgProof, Failure> {
    match run(|| kzg::compute_blob_kzg_proof(b, c, &settings())) {
        Got::Ok(c) => Ok(c),
        x => fail("prove", format!("proof of a valid blob: {}", x.kind())),
    }
}
fn g1(b: [u8; 48]) -> KzgCommitment {
    KzgCommitment::try_from(b.as_slice()).unwrap()
}
/// not an acceptable group element
fn bad_point(src: &mut Src) -> (KzgCommitment, &'static str) {
    let (b, w) = match src.below(4) {
        0 => ([0; 48], "zero bytes"),
        1 => (encode_off_group::<48>(b"kzg", &Fr::from_u64(src.range(1, 1 << 20))), "an off-group point"),
        2 => (src.arr(), "random bytes"),
        _ => {
            let mut p = vfr::encode_point::<48>(b"kzg", &Fr::from_u64(src.range(1, 9)));
            p[0] ^= *src.pick(&[0x80, 0x40, 0x20]);
            (p, "a wrong flag")
        }
    };
    (g1(b), w)
}
fn bad_blob(src: &mut Src, good: &[u8]) -> (Vec<u8>, &'static str) {
    let mut b = good.to_vec();
    match src.below(5) {
        0 => {
            b.truncate(src.idx(b.len()));
            (b, "a shorter blob")
        }
        1 => {
            b.pop();
            (b, "a shorter blob")
        }
        2 => {
            b.extend(vec![0; src.range(1, 64) as usize]);
            (b, "a longer blob")
        }
        _ => {
            let i = src.idx(N);
            let mut e = R;
            match src.below(3) {
                0 => e = [0xff; 32],
                1 => e[31] = 2,
                _ => (),
            }
            b[32 * i..32 * i + 32].copy_from_slice(&e);
            (b, "an element not below the modulus")
        }
    }
}
fn judge(who: &str, sig: &str, got: Got<()>, want: bool) -> CaseResult {
    match (&got, want) {
        (Got::Ok(()), true) | (Got::Err(_), false) => Ok(()),
        _ => fail(sig, format!("{who}: {}, wanted {}", got.kind(), if want { "acceptance" } else { "refusal" })),
    }
}
fn brief(b: &[u8]) -> String {
    let n = b.chunks(32).filter(|c| c.iter().any(|x| *x != 0)).count();
    format!("blob of {} bytes, {n} words not zero, digest {}", b.len(), ssz::hex(&sha(&[b])[..6]))
}
fn single(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let s = settings();
    let (b, kind) = blob(src);
    let c = commit(&b)?;
    let p = prove(&b, &c)?;
    let (mut b2, mut c2, mut p2) = (b.clone(), c.clone(), p.clone());
    let what = match src.below(9) {
        0 => "nothing",
        1 => {
            let (x, w) = bad_blob(src, &b);
            b2 = x;
            w
        }
        2 => {
            let (x, _) = bad_point(src);
            c2 = x;
            "a malformed commitment"
        }
        3 => {
            let (x, _) = bad_point(src);
            p2 = x;
            "a malformed proof"
        }
        4 => {
            let i = 32 * src.idx(N) + src.idx(31) + 1;
            b2[i] ^= 1 << src.below(8);
            "a bit of the blob"
        }
        5 => {
            b2 = blob(src).0;
            "the blob"
        }
        6 => {
            c2 = commit(&blob(src).0)?;
            "the commitment"
        }
        7 => {
            let o = blob(src).0;
            p2 = prove(&o, &commit(&o)?)?;
            "the proof"
        }
        _ => {
            c2 = g1(vfr::encode_point::<48>(b"kzg", &element(src)));
            "the commitment"
        }
    };
    obs.hit(&sha(&[&b, &b2, &c2, &p2]));
    obs.label(&format!("{kind}; {what}"));
    let who = format!("{kind} {}; changed: {what}", brief(&b));
    obs.sample(|| who.clone());
    judge(&who, "verify-own", run(|| kzg::verify_blob_kzg_proof(&b, &c, &p, &s)), true)?;
    // only the constant polynomials have the same proof (infinity) for every point
    let same = b2 == b && c2 == c && p2 == p;
    let want = same || (c2 == c && b2 == b && p2 == p);
    judge(&who, "verify", run(|| kzg::verify_blob_kzg_proof(&b2, &c2, &p2, &s)), want)?;
    if Fr::from_be(&b2[..32.min(b2.len())]).is_none() || b2.len() != 32 * N || b2.chunks(32).any(|c| Fr::from_be(c).is_none()) {
        let x = run(|| kzg::blob_to_kzg_commitment(&b2, &s));
        ensure!(matches!(x, Got::Err(_)), "commit-bad-blob", "{who}: {}", x.kind());
        let x = run(|| kzg::compute_blob_kzg_proof(&b2, &c, &s));
        ensure!(matches!(x, Got::Err(_)), "prove-bad-blob", "{who}: {}", x.kind());
        let x = run(|| kzg::compute_kzg_proof(&b2, &Bytes32::default(), &s));
        ensure!(matches!(x, Got::Err(_)), "prove-bad-blob", "{who}: {}", x.kind());
    } else {
        let x = commit(&b2)?;
        ensure!((x == c) == (b2 == b), "commitment-binds", "{who}: commitment {x:?} and {c:?}");
    }
    let mut v = sha(&[c.as_ref()]);
    v[0] = 1;
    let x = run(|| Ok::<_, String>(ec::deneb::kzg_commitment_to_versioned_hash(&c)));
    match x {
        Got::Ok(x) => ensure_eq!(x.as_ref(), v.as_slice(), "versioned-hash", "commitment {c:?}"),
        x => return fail("versioned-hash", x.kind()),
    }
    Ok(())
}
fn point(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let s = settings();
    let (b, kind) = blob(src);
    let c = commit(&b)?;
    let i = src.idx(N);
    let on = src.bool();
    let z = if on { root_at(i) } else { element(src) };
    let zb = Bytes32::try_from(z.to_be().as_slice()).unwrap();
    obs.hit(&sha(&[&b, zb.as_ref()]));
    obs.label(&format!("{kind}; {}", if on { "at a root of unity" } else { "elsewhere" }));
    let who = format!("{kind} {} at {}", brief(&b), ssz::hex(zb.as_ref()));
    obs.sample(|| who.clone());
    let got = match run(|| kzg::compute_kzg_proof(&b, &zb, &s)) {
        Got::Ok(x) => x,
        x => return fail("prove-at", format!("{who}: {}", x.kind())),
    };
    let (p, y) = (got.proof, got.evaluation);
    if on {
        ensure_eq!(y.as_ref(), &b[32 * i..32 * i + 32], "evaluation", "{who}: value at element {i}");
    } else if kind == "constant" {
        ensure_eq!(y.as_ref(), &b[..32], "evaluation", "{who}: value of a constant");
    }
    judge(&who, "verify-at", run(|| kzg::verify_kzg_proof(&c, &zb, &y, &p, &s)), true)?;
    // one part changed
    let inf = p.as_ref()[0] == 0xc0;
    let (mut c2, mut z2, mut y2, mut p2) = (c.clone(), zb.clone(), y.clone(), p.clone());
    let mut want = false;
    let what = match src.below(7) {
        0 => {
            y2 = Bytes32::try_from(element(src).to_be().as_slice()).unwrap();
            want = y2 == y;
            "the value"
        }
        1 => {
            z2 = Bytes32::try_from(element(src).to_be().as_slice()).unwrap();
            want = z2 == zb || inf;
            "the point"
        }
        2 => {
            c2 = g1(vfr::encode_point::<48>(b"kzg", &element(src)));
            want = c2 == c;
            "the commitment"
        }
        3 => {
            p2 = g1(vfr::encode_point::<48>(b"kzg", &element(src)));
            want = p2 == p;
            "the proof"
        }
        4 => {
            let x = Bytes32::try_from(R.as_slice()).unwrap();
            if src.bool() {
                y2 = x.clone();
                let r = run(|| kzg::compute_kzg_proof(&b, &x, &s));
                ensure!(matches!(r, Got::Err(_)), "prove-at-bad", "{who}: point not below the modulus: {}", r.kind());
            } else {
                z2 = x
            }
            "an element to one not below the modulus"
        }
        5 => {
            c2 = bad_point(src).0;
            "the commitment to a malformed one"
        }
        _ => {
            p2 = bad_point(src).0;
            "the proof to a malformed one"
        }
    };
    judge(&format!("{who}; changed: {what}"), "verify-at-other", run(|| kzg::verify_kzg_proof(&c2, &z2, &y2, &p2, &s)), want)
}
fn batch(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let s = settings();
    let n = src.below(5) as usize;
    let mut bs: Vec<Vec<u8>> = vec![];
    for i in 0..n {
        if i > 0 && src.chance(1, 5) {
            let b: Vec<u8> = bs[src.idx(i)].clone();
            bs.push(b);
        } else {
            bs.push(blob(src).0);
        }
    }
    let mut cs = vec![];
    let mut ps = vec![];
    for b in &bs {
        let c = commit(b)?;
        ps.push(prove(b, &c)?);
        cs.push(c);
    }
    let (ob, oc, op) = (bs.clone(), cs.clone(), ps.clone());
    let who = bs.iter().map(|b| brief(b)).collect::<Vec<_>>().join(", ");
    judge(&format!("batch of {n}: {who}"), "batch-own", run(|| kzg::verify_blob_kzg_proof_batch(&bs, &cs, &ps, &s)), true)?;
    let mut rot = |v: usize, k: usize| match v {
        0 => bs.rotate_left(k),
        1 => cs.rotate_left(k),
        _ => ps.rotate_left(k),
    };
    let what = match src.below(9) {
        0 if n > 1 => {
            let k = src.range(1, n as u64 - 1) as usize;
            (0..3).for_each(|v| rot(v, k));
            "all rotated alike"
        }
        1 if n > 1 => {
            let k = src.range(1, n as u64 - 1) as usize;
            let w = src.idx(3);
            (0..3).filter(|v| *v != w).for_each(|v| rot(v, k));
            "one list in another order"
        }
        2 if n > 1 => {
            let k = src.range(1, n as u64 - 1) as usize;
            rot(src.idx(3), k);
            "one list in another order"
        }
        3 if n > 0 => {
            match src.below(3) {
                0 => drop(bs.pop()),
                1 => drop(cs.pop()),
                _ => drop(ps.pop()),
            }
            "one list shorter"
        }
        4 => {
            let b = blob(src).0;
            let c = commit(&b)?;
            match src.below(3) {
                0 => bs.push(b),
                1 => ps.push(prove(&b, &c)?),
                _ => cs.push(c),
            }
            "one list longer"
        }
        5 if n > 0 => {
            let i = src.idx(n);
            let (b, w) = bad_blob(src, &bs[i]);
            bs[i] = b;
            w
        }
        6 if n > 0 => {
            let i = src.idx(n);
            bs[i][32 * 7 + 9] ^= 4;
            "a bit of a blob"
        }
        7 if n > 0 => {
            let i = src.idx(n);
            if src.bool() {
                cs[i] = bad_point(src).0;
            } else {
                ps[i] = bad_point(src).0;
            }
            "a malformed point"
        }
        8 if n > 0 => {
            let i = src.idx(n);
            if src.bool() {
                cs[i] = g1(vfr::encode_point::<48>(b"kzg", &element(src)));
            } else {
                ps[i] = g1(vfr::encode_point::<48>(b"kzg", &element(src)));
            }
            "another point"
        }
        _ => "nothing",
    };
    obs.hit(&sha(&[&bs.concat(), format!("{cs:?} {ps:?}").as_bytes()]));
    obs.label(&format!("{n} blobs; {what}"));
    obs.sample(|| format!("{n} blobs: {who}; changed: {what}"));
    // a place is right when its three parts are those made for one blob
    let want = bs.len() == cs.len()
        && bs.len() == ps.len()
        && (0..bs.len()).all(|i| (0..n).any(|j| bs[i] == ob[j] && cs[i] == oc[j] && ps[i] == op[j]));
    judge(&format!("batch of {n}: {who}; changed: {what}"), "batch", run(|| kzg::verify_blob_kzg_proof_batch(&bs, &cs, &ps, &s)), want)
}
type Verify = fn(u64, &[u8], &[H], &[H; 3], u64, &H) -> Got<()>;
macro_rules! verifier {
    ($preset:ident, $body:path) => {
        |index, c, branch, roots, slot, body_root| {
            use ec::deneb::$preset as d;
            let r = |h: &H| ssz_rs::Node::try_from(h.as_slice()).unwrap();
            let mut s = d::BlobSidecar { index: index as usize, kzg_commitment: KzgCommitment::try_from(c).unwrap(), ..Default::default() };
            s.signed_block_header.message.slot = slot;
            s.signed_block_header.message.proposer_index = slot as usize;
            s.signed_block_header.message.parent_root = r(&roots[0]);
            s.signed_block_header.message.state_root = r(&roots[1]);
            s.signed_block_header.message.body_root = r(body_root);
            s.kzg_proof = KzgProof::try_from([&roots[2][..], &roots[0][..16]].concat().as_slice()).unwrap();
            for (i, b) in branch.iter().enumerate() {
                s.kzg_commitment_inclusion_proof[i] = r(b);
            }
            run(|| {
                ec::deneb::blob_sidecar::verify_blob_sidecar_inclusion_proof::<
                    { d::KZG_COMMITMENT_INCLUSION_PROOF_DEPTH },
                    { d::BYTES_PER_BLOB },
                    $body,
                >(&s)
            })
        }
    };
}
fn field_leaves(v: &ssz::Value, t: &ssz::Ty) -> Vec<H> {
    t.cont().fields.iter().zip(v.fields()).map(|((_, t), v)| ssz::htr(v, t)).collect()
}
fn sidecar(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let minimal = src.chance(2, 3);
    let deneb = src.bool();
    let (preset, fork) = (if minimal { Minimal } else { Mainnet }, if deneb { Deneb } else { Electra });
    let f: Verify = match (minimal, deneb) {
        (true, true) => verifier!(minimal, ec::deneb::minimal::BeaconBlockBody),
        (true, false) => verifier!(minimal, eccheck::electra::minimal::BeaconBlockBody),
        (false, true) => verifier!(mainnet, ec::deneb::mainnet::BeaconBlockBody),
        (false, false) => verifier!(mainnet, eccheck::electra::mainnet::BeaconBlockBody),
    };
    let t = schema::ty(preset, fork, "BeaconBlockBody");
    let mut budget = 40;
    let mut body = gen::value(src, &t, &mut budget);
    let (fi, lt) = t.field("blob_kzg_commitments").unwrap();
    let limit = lt.limit();
    let n = match src.below(5) {
        0 => limit.min(40),
        1 => 1,
        _ => src.range(1, 7) as usize,
    };
    let mut cs: Vec<Vec<u8>> = (0..n).map(|_| src.bytes(48)).collect();
    if n > 1 && src.chance(1, 6) {
        cs[n - 1] = cs[0].clone();
    }
    let ct = lt.elem().clone();
    let list: Vec<ssz::Value> = cs.iter().map(|c| ssz::decode(c, &ct).unwrap()).collect();
    *body.get_mut(&t, "blob_kzg_commitments") = ssz::Value::Seq(list);
    let leaves: Vec<H> = cs.iter().map(|c| sha(&[&sha_pad(c)])).collect();
    let ld = ssz::depth(limit);
    let bd = ssz::depth(t.cont().fields.len());
    let depth = ld + 1 + bd;
    let i = src.idx(n);
    let mut len = [0; 32];
    len[..8].copy_from_slice(&(n as u64).to_le_bytes());
    let tops = field_leaves(&body, &t);
    let make = |i: usize| {
        let mut b = ssz::branch(&leaves, ld, i);
        b.push(len);
        b.extend(ssz::branch(&tops, bd, fi));
        b
    };
    let branch = make(i);
    let root = ssz::htr(&body, &t);
    let at = |i: u64| (fi as u64) << (ld + 1) | i;
    assert!(ssz::verify_branch(leaves[i], &branch, depth, at(i as u64), root), "the model's own branch");
    let roots = [src.arr(), src.arr(), src.arr()];
    let slot = src.u64();
    let (mut i2, mut c2, mut b2, mut r2) = (i as u64, cs[i].clone(), branch.clone(), root);
    let what = match src.below(12) {
        0 | 1 => "nothing",
        2 => {
            i2 = src.below(n as u64);
            "index"
        }
        3 => {
            i2 = *src.pick(&[i2 ^ 1, i2 + limit as u64, limit as u64 - 1, limit as u64, u64::MAX, i2 | 1 << 32, i2 | 1 << 63, i2 + (1 << (ld + 1)), i2 + 256]);
            "index"
        }
        4 => {
            c2 = cs[src.idx(n)].clone();
            "commitment"
        }
        5 => {
            c2[src.idx(48)] ^= 1 << src.below(8);
            "a bit of the commitment"
        }
        6 => {
            let k = src.idx(depth);
            b2[k][src.idx(32)] ^= 1 << src.below(8);
            "a bit of the branch"
        }
        7 => {
            let k = src.idx(depth - 1);
            b2.swap(k, k + 1);
            "the order of the branch"
        }
        8 => {
            r2[src.idx(32)] ^= 1 << src.below(8);
            "the body's root"
        }
        9 => {
            b2 = make(src.idx(n));
            "the branch to another place's"
        }
        10 => {
            // a body with another field changed
            let mut other = tops.clone();
            let k = src.idx(other.len());
            other[k] = src.arr();
            r2 = ssz::merkleize(other, 1 << bd);
            "another body"
        }
        _ => {
            let j = src.idx(n);
            i2 = j as u64;
            c2 = cs[j].clone();
            b2 = make(j);
            "to another place altogether"
        }
    };
    let leaf = sha(&[&sha_pad(&c2)]);
    let want = i2 < limit as u64 && ssz::verify_branch(leaf, &b2, depth, at(i2), r2);
    obs.hit(format!("{fork:?} {minimal} {i2} {c2:?} {b2:?} {r2:?}").as_bytes());
    obs.label(&format!("{} {}; changed: {what}", fork.name(), if minimal { "minimal" } else { "mainnet" }));
    let who = format!("{} {} body with {n} commitments, place {i}; changed: {what}, place {i2}", fork.name(), if minimal { "minimal" } else { "mainnet" });
    obs.sample(|| who.clone());
    judge(&who, "inclusion", f(i2, &c2, &b2, &roots, slot, &r2), want)
}
fn sha_pad(c: &[u8]) -> [u8; 64] {
    let mut p = [0; 64];
    p[..48].copy_from_slice(c);
    p
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
/// a sidecar taken from the sepolia network
fn live(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let f: Verify = verifier!(mainnet, ec::deneb::mainnet::BeaconBlockBody);
    let b: Vec<H> = LIVE.iter().map(|s| unhex(s).try_into().unwrap()).collect();
    let c = unhex("8da04bbe26b2bbc6b042f4db18a36f1b4714123706065ed3946a3c3aeb681f98d3e67a3483b088612cb9b0c5322723a0");
    let r: H = unhex("940ebac04b768dab430d21b4b2d7ecd5d3f87e0486293a5612c16b9e8d4c078a").try_into().unwrap();
    let roots = [src.arr(), src.arr(), src.arr()];
    obs.hit(b"live");
    for i in 0..8 {
        judge(&format!("sepolia sidecar of slot 4659411, place {i}"), "live", f(i, &c, &b, &roots, 4659411, &r), i == 0)?;
    }
    Ok(())
}
const LIVE: [&str; 17] = [
    "0000000000000000000000000000000000000000000000000000000000000000",
    "f5a5fd42d16a20302798ef6ed309979b43003d2320d9f0e8ea9831a92759fb4b",
    "db56114e00fdd4c1f85c892bf35ac9a89289aaecb1ebd0a96cde606a748b5d71",
    "c78009fdf07fc56a11f122370658a353aaa542ed63e44c4bc15ff4cd105ab33c",
    "536d98837f2dd165a55d5eeae91485954472d56f246df256bf3cae19352a123c",
    "9efde052aa15429fae05bad4d0b1d7c64da64d03d7a1854a588c2cb8430c0d30",
    "d88ddfeed400a8755596b21942c1497e114c302e6118290f91e6772976041fa1",
    "87eb0ddba57e35f6d286673802a4af5975e22506c7cf4c64bb6be5ee11527f2c",
    "26846476fd5fc54a5d43385167c95144f2643f533cc85bb9d16b782f8d7db193",
    "506d86582d252405b840018792cad2bf1259f1ef5aa5f887e13cb2f0094f51e1",
    "ffff0ad7e659772f9534c195c815efc4014ef1e1daed4404c06385d11192e92b",
    "6cf04127db05441cd833107a52be852868890e4317e6a02ab47683aa75964220",
    "0100000000000000000000000000000000000000000000000000000000000000",
    "792930bbd5baac43bcc798ee49aa8185ef76bb3b44ba62b91d86ae569e4bb535",
    "818d8d71c18b108e28500c2bd5bb946069c5877a512a699cdd8a40b90aaf44ca",
    "db56114e00fdd4c1f85c892bf35ac9a89289aaecb1ebd0a96cde606a748b5d71",
    "d130f52a1da1e28d4a38d8f4b89a0f0c3f047e7d9935408aef8efc3bc0930c13",
];
fn main() {
    pbt::main(Check {
        property: "C26",
        rule: "A case is a blob (zero, constant, sparse or dense) committed to and proved, alone, at a point or in a batch of up to four, with at most one part changed, exchanged, dropped, added or malformed; or a block body with commitments, one of its sidecars' inclusion proofs, and at most one part of that changed. It counts once per distinct content.",
        assumptions: &["the polynomial commitments are those of the stand-in for c-kzg (the genuine field and evaluation form, group elements as discrete logarithms)", "sha256 has no collisions among the cases"],
        subs: vec![
            Sub { name: "live", quick: 1, thorough: 1, f: live },
            Sub { name: "single", quick: 4000, thorough: 200000, f: single },
            Sub { name: "point", quick: 6000, thorough: 200000, f: point },
            Sub { name: "batch", quick: 1600, thorough: 80000, f: batch },
            Sub { name: "sidecar", quick: 20000, thorough: 700000, f: sidecar },
        ],
    })
}

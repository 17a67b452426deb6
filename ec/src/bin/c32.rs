//! C32: peer identifiers, node metadata, duty messages, builder registrations
use ec::networking::PeerId;
use eccheck::{containers::Codec, ssz::sha, *};
use std::{str::FromStr, sync::OnceLock};

const DIGITS: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
/// base-58 text by long division
fn base58(b: &[u8]) -> String {
    let mut n = b.to_vec();
    let mut out = vec![];
    while n.iter().any(|x| *x != 0) {
        let mut rem = 0u32;
        for x in n.iter_mut() {
            let v = rem * 256 + *x as u32;
            *x = (v / 58) as u8;
            rem = v % 58;
        }
        out.push(DIGITS[rem as usize]);
    }
    out.extend(b.iter().take_while(|x| **x == 0).map(|_| b'1'));
    out.reverse();
    String::from_utf8(out).unwrap()
}
fn un58(s: &str) -> Option<Vec<u8>> {
    let mut n: Vec<u8> = vec![];
    for c in s.bytes() {
        let mut v = DIGITS.iter().position(|d| *d == c)? as u32;
        for x in n.iter_mut().rev() {
            v += *x as u32 * 58;
            *x = v as u8;
            v >>= 8;
        }
        while v > 0 {
            n.insert(0, v as u8);
            v >>= 8;
        }
    }
    let z = s.bytes().take_while(|c| *c == b'1').count();
    Some([vec![0; z], n].concat())
}
fn varint(mut v: u64) -> Vec<u8> {
    let mut o = vec![];
    while v > 127 {
        o.push(v as u8 | 128);
        v >>= 7;
    }
    o.push(v as u8);
    o
}
fn unvarint(b: &[u8]) -> Option<(u64, usize)> {
    let mut v = 0u128;
    for i in 0..10 {
        let x = *b.get(i)?;
        v |= ((x & 127) as u128) << (7 * i);
        if x < 128 {
            // shortest form only, 64 bits
            return ((x != 0 || i == 0) && v < 1 << 64).then_some((v as u64, i + 1));
        }
    }
    None
}
/// are these the bytes of a peer identifier: a sha-256 multihash, or an identity one of up to 42 bytes?
fn peer(b: &[u8]) -> bool {
    let Some((code, i)) = unvarint(b) else { return false };
    let Some((size, j)) = unvarint(&b[i..]) else { return false };
    let rest = b.len() - i - j;
    size == rest as u64 && rest <= 64 && (code == 0x12 || code == 0 && rest <= 42)
}
fn candidate(src: &mut Src) -> Vec<u8> {
    let code = match src.below(8) {
        0 => *src.pick(&[0x11, 0x13, 0x1b, 0xb220, 0x14, 1, 2, 0x112, 0x100, 1 << 63]),
        1..=3 => 0,
        _ => 0x12,
    };
    let n = match src.below(8) {
        0 => *src.pick(&[0usize, 1, 31, 33, 41, 42, 43, 63, 64, 65]),
        1 => src.below(70) as usize,
        _ if code == 0 => src.range(30, 45) as usize,
        _ => 32,
    };
    let size = if src.chance(1, 12) { n as u64 + src.below(3) - n.min(1) as u64 } else { n as u64 };
    let body = if src.chance(1, 8) { vec![0; n] } else { src.bytes(n) };
    let mut b = [varint(code), varint(size), body].concat();
    if src.chance(1, 10) && !b.is_empty() {
        let i = src.idx(b.len().min(3));
        match src.below(4) {
            0 => b[i] ^= 1 << src.below(8),
            1 => drop(b.pop()),
            2 => b.push(0),
            _ => {
                // the same number in a longer form
                b[i] |= 0x80;
                b.insert(i + 1, 0);
            }
        }
    }
    if src.chance(1, 40) {
        b.truncate(src.idx(b.len() + 1));
    }
    b
}
fn from_value_bytes(b: &[u8]) -> Got<PeerId> {
    use serde::de::value::{BytesDeserializer, Error};
    run(|| <PeerId as serde::Deserialize>::deserialize(NotForHumans(BytesDeserializer::<Error>::new(b))).map_err(|e| e.to_string()))
}
/// a deserializer of a binary format
struct NotForHumans<D>(D);
impl<'de, D: serde::Deserializer<'de>> serde::Deserializer<'de> for NotForHumans<D> {
    type Error = D::Error;
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, D::Error> {
        self.0.deserialize_any(v)
    }
    fn is_human_readable(&self) -> bool {
        false
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
fn ids(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let b = candidate(src);
    let ok = peer(&b);
    obs.hit(&b);
    obs.label(if ok { "peer identifier" } else { "no peer identifier" });
    let t = base58(&b);
    obs.sample(|| format!("{} = {t}", ssz::hex(&b)));
    let who = format!("bytes {} = text {t:?}", ssz::hex(&b));
    let all = [
        ("bytes", run(|| PeerId::from_bytes(&b).map_err(|e| e.to_string()))),
        ("text", run(|| PeerId::from_str(&t).map_err(|e| e.to_string()))),
        ("JSON", run(|| serde_json::from_str::<PeerId>(&format!("{t:?}")).map_err(|e| e.to_string()))),
        ("JSON tree", run(|| serde_json::from_value::<PeerId>(serde_json::Value::String(t.clone())).map_err(|e| e.to_string()))),
        ("binary", from_value_bytes(&b)),
    ];
    let mut first = None;
    for (how, got) in all {
        match (got, ok) {
            (Got::Err(_), false) => (),
            (Got::Ok(p), true) => {
                ensure_eq!(p.to_bytes(), b, "peer-bytes", "{who}, read from {how}");
                ensure_eq!(p.to_base58(), t, "peer-text", "{who}, read from {how}");
                ensure_eq!(p.to_string(), t, "peer-display", "{who}, read from {how}");
                ensure_eq!(serde_json::to_string(&p).unwrap(), format!("{t:?}"), "peer-json", "{who}, read from {how}");
                let f = *first.get_or_insert(p);
                ensure!(f == p && f.cmp(&p).is_eq(), "peer-equal", "{who}: that read from {how} differs");
            }
            (x, _) => return fail("peer-read", format!("{who}, read from {how}: {}", x.kind())),
        }
    }
    // a text of its own
    let mut s: Vec<char> = t.chars().collect();
    for _ in 0..src.range(1, 3) {
        let i = src.idx(s.len().max(1));
        match src.below(5) {
            0 => s.insert(i.min(s.len()), *src.pick(&['1', '0', 'l', 'I', 'O', ' ', 'z', '+', 'é'])),
            1 if !s.is_empty() => s[i] = DIGITS[src.idx(58)] as char,
            2 if !s.is_empty() => drop(s.remove(i)),
            3 if !s.is_empty() => s[i] = *src.pick(&['0', 'O', 'I', 'l', '/', ':', '@', '[', '`', '{']),
            _ => drop(s.pop()),
        }
    }
    let s: String = s.into_iter().collect();
    let want = un58(&s).filter(|b| peer(b));
    match (run(|| PeerId::from_str(&s).map_err(|e| e.to_string())), want) {
        (Got::Ok(p), Some(w)) => {
            ensure_eq!(p.to_bytes(), w, "peer-bytes", "text {s:?}");
            if let Some(f) = first {
                ensure_eq!(f == p, b == w, "peer-equal", "{who} and {s:?}");
            }
            Ok(())
        }
        (Got::Err(_), None) => Ok(()),
        (x, _) => fail("peer-read", format!("text {s:?}: {}", x.kind())),
    }
}
/// identifiers seen in the wild
fn known(_: &mut Src, obs: &mut Obs) -> CaseResult {
    for t in [
        "16Uiu2HAmVDji3ShrqL9DLnQo3teJcEWiKqy9qKefFFFxrz2EYwde",
        "QmYyQSo1c1Ym7orWxLYvCrM2EmxFTANf8wXmmE7DWjhx5N",
        "12D3KooWD3eckifWpRn9wQpMG9R9hX3sD158z7EqHWmweQAJU5SA",
        "QmcgpsyWgH8Y8ajJz1Cu72KnS5uo2Aa2LpzU7kinSupNKC",
    ] {
        obs.hit(t.as_bytes());
        match run(|| PeerId::from_str(t).map_err(|e| e.to_string())) {
            Got::Ok(p) => ensure_eq!((p.to_string(), base58(&p.to_bytes())), (t.to_string(), t.to_string()), "peer-known", "{t}"),
            x => return fail("peer-known", format!("{t}: {}", x.kind())),
        }
    }
    Ok(())
}
fn metadata(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let altair = src.bool();
    let seq = src.edgy();
    let (a, s): ([u8; 8], u8) = (if src.bool() { src.arr() } else { (1u64 << src.below(64)).to_le_bytes() }, src.below(16) as u8);
    let ah: String = a.iter().map(|x| format!("{x:02x}")).collect();
    let mut text = format!("{{\"seq_number\":\"{seq}\",\"attnets\":\"0x{ah}\"");
    if altair {
        text += &format!(",\"syncnets\":\"0x{s:02x}\"");
    }
    text += "}";
    let (mut bad, mut edit) = (false, text.clone());
    if src.chance(1, 3) {
        bad = true;
        match src.below(if altair { 6 } else { 4 }) {
            0 => edit = text.replace(&format!("0x{ah}"), &format!("0x{}", &ah[2..])),
            1 => edit = text.replace(&format!("0x{ah}"), &format!("0x{ah}00")),
            2 => edit = text.replace(&format!("\"{seq}\""), "\"18446744073709551616\""),
            3 => edit = text.replace("attnets", "attnet"),
            4 => edit = text.replace(&format!("\"0x{s:02x}\""), &format!("\"0x{:02x}\"", s | 1 << src.range(4, 7))),
            _ => edit = text.replace("syncnets", "syncnet"),
        }
    }
    obs.hit(edit.as_bytes());
    obs.label(if altair { "altair metadata" } else { "phase0 metadata" });
    obs.sample(|| edit.clone());
    macro_rules! go {
        ($t:ty, |$m:ident| $e:expr) => {
            match (run(|| serde_json::from_str::<$t>(&edit).map_err(|e| e.to_string())), bad) {
                (Got::Err(_), true) => (),
                (Got::Ok($m), false) => {
                    ensure_eq!($m.seq_number, seq, "metadata", "{edit}");
                    for i in 0..64 {
                        ensure_eq!($m.attnets[i], a[i / 8] >> (i % 8) & 1 == 1, "metadata", "{edit}: subnet {i}");
                    }
                    $e;
                    ensure_eq!(serde_json::to_string(&$m).unwrap(), text, "metadata-json", "{edit}");
                }
                (x, _) => return fail("metadata-read", format!("{edit}: {}", x.map(|_| ()).kind())),
            }
        };
    }
    if altair {
        go!(ec::altair::networking::MetaData, |m| for i in 0..4 {
            ensure_eq!(m.syncnets[i], s >> i & 1 == 1, "metadata", "{edit}: sync subnet {i}");
        })
    } else {
        go!(ec::phase0::networking::MetaData, |m| ())
    }
    Ok(())
}
fn constants(_: &mut Src, obs: &mut Obs) -> CaseResult {
    use ec::{altair::constants as a, deneb::networking as d, phase0::networking as p};
    obs.hit(b"constants");
    let ms = |d: std::time::Duration| d.as_millis() as u64;
    for (name, got, want) in [
        ("ATTESTATION_SUBNET_COUNT", p::ATTESTATION_SUBNET_COUNT as u64, 64),
        ("GOSSIP_MAX_SIZE", p::GOSSIP_MAX_SIZE as u64, [1 << 20, 10 * (1 << 20)][(p::GOSSIP_MAX_SIZE > 1 << 20) as usize]),
        ("MAX_REQUEST_BLOCKS", p::MAX_REQUEST_BLOCKS as u64, 1024),
        ("MIN_EPOCHS_FOR_BLOCK_REQUESTS", p::MIN_EPOCHS_FOR_BLOCK_REQUESTS, 33024),
        ("ATTESTATION_PROPAGATION_SLOT_RANGE", p::ATTESTATION_PROPAGATION_SLOT_RANGE as u64, 32),
        ("MAXIMUM_GOSSIP_CLOCK_DISPARITY", ms(p::MAXIMUM_GOSSIP_CLOCK_DISPARITY), 500),
        ("TTFB_TIMEOUT", ms(p::TTFB_TIMEOUT), 5000),
        ("RESP_TIMEOUT", ms(p::RESP_TIMEOUT), 10000),
        ("SYNC_COMMITTEE_SUBNET_COUNT", a::SYNC_COMMITTEE_SUBNET_COUNT as u64, 4),
        ("MAX_REQUEST_BLOCKS_DENEB", d::MAX_REQUEST_BLOCKS_DENEB as u64, 128),
        ("MAX_REQUEST_BLOB_SIDECARS", d::MAX_REQUEST_BLOB_SIDECARS as u64, 768),
        ("MIN_EPOCHS_FOR_BLOB_SIDECARS_REQUESTS", d::MIN_EPOCHS_FOR_BLOB_SIDECARS_REQUESTS as u64, 4096),
        ("BLOB_SIDECAR_SUBNET_COUNT", d::BLOB_SIDECAR_SUBNET_COUNT as u64, 6),
    ] {
        ensure_eq!(got, want, "networking-constant", "{name}");
    }
    Ok(())
}
const DUTIES: [&str; 10] = [
    "AggregateAndProof",
    "SignedAggregateAndProof",
    "SyncCommitteeMessage",
    "SyncCommitteeContribution",
    "ContributionAndProof",
    "SignedContributionAndProof",
    "SyncAggregatorSelectionData",
    "ValidatorRegistration",
    "SignedValidatorRegistration",
    "BlobIdentifier",
];
fn duties(src: &mut Src, obs: &mut Obs) -> CaseResult {
    static C: OnceLock<Vec<Codec>> = OnceLock::new();
    let all = C.get_or_init(|| {
        let v: Vec<Codec> = containers::all().into_iter().filter(|c| DUTIES.contains(&c.name)).collect();
        assert!(DUTIES.iter().all(|d| v.iter().any(|c| c.name == *d)));
        v
    });
    let c = &all[src.idx(all.len())];
    let t = schema::ty(c.preset, c.fork, c.name);
    let mut budget = 300;
    let v = gen::value(src, &t, &mut budget);
    let b = ssz::encode(&v, &t);
    let who = format!("{} ({:?} {:?}) {}", c.name, c.fork, c.preset, cut(&ssz::hex(&b)));
    obs.hit(&b);
    obs.label(c.name);
    obs.sample(|| who.clone());
    match (c.ssz)(&b) {
        Got::Ok((back, root)) => {
            ensure!(back == b, "duty-ssz", "{who}: written as {}", cut(&ssz::hex(&back)));
            ensure_eq!(root, ssz::htr(&v, &t), "duty-root", "{who}");
        }
        x => return fail("duty-ssz", format!("{who}: {}", x.kind())),
    }
    if let (Some(to), Some(from)) = (c.to_json, c.from_json) {
        let j = match to(&b) {
            Got::Ok(j) => j,
            x => return fail("duty-json", format!("{who}: {}", x.kind())),
        };
        match from(&j) {
            Got::Ok(back) => ensure!(back == b, "duty-json", "{who}: JSON {j} reads as {}", cut(&ssz::hex(&back))),
            x => return fail("duty-json", format!("{who}: JSON {j}: {}", x.kind())),
        }
    }
    Ok(())
}
/// a registration signed for a network
fn registration(src: &mut Src, obs: &mut Obs) -> CaseResult {
    use ec::{builder::*, crypto::SecretKey, networks::Network, signing, state_transition::Context};
    let (mut ctx, version, who): (Context, [u8; 4], &str) = match src.below(6) {
        0 => (Context::for_mainnet(), [0, 0, 0, 0], "mainnet"),
        1 => (Context::for_minimal(), [0, 0, 0, 1], "minimal"),
        2 => (Context::for_sepolia(), [0x90, 0, 0, 0x69], "sepolia"),
        3 => (Context::for_goerli(), [0, 0, 0x10, 0x20], "goerli"),
        4 => (Context::for_holesky(), [1, 1, 0x70, 0], "holesky"),
        _ => (Context::for_mainnet(), src.arr(), "a network of its own"),
    };
    if who == "a network of its own" {
        ctx.genesis_fork_version = version;
        // nothing else of the network matters
        ctx.altair_fork_version = src.arr();
        ctx.deneb_fork_version = src.arr();
        ctx.name = Network::Custom(String::from("x"));
    }
    let t = schema::ty(Mainnet, Phase0, "ValidatorRegistration");
    let mut budget = 20;
    let v = gen::value(src, &t, &mut budget);
    let b = ssz::encode(&v, &t);
    let k = src.below(6);
    obs.hit(&b);
    obs.hit(&version);
    obs.label(who);
    let told = format!("registration {} on {who} (genesis version {version:?})", ssz::hex(&b));
    obs.sample(|| told.clone());
    let fork_data = sha(&[&[&version[..], &[0; 28]].concat(), &[0; 32]]);
    let mut d = [0u8; 32];
    d[3] = 1;
    d[4..].copy_from_slice(&fork_data[..28]);
    let want = sha(&[&ssz::htr(&v, &t), &d]);
    let r = <ValidatorRegistration as ssz_rs::Deserialize>::deserialize(&b).unwrap();
    let sk = SecretKey::try_from(bls::sk(k).to_be().as_slice()).unwrap();
    let got = run(|| {
        let d = compute_builder_domain(&ctx)?;
        let root = signing::compute_signing_root(&r, d)?;
        let s = signing::sign_with_domain(&r, &sk, d)?;
        signing::verify_signed_data(&r, &s, &sk.public_key(), d)?;
        Ok::<_, ec::Error>((d, root, s))
    });
    match got {
        Got::Ok((gd, root, s)) => {
            ensure!(gd.as_ref() as &[u8] == &d[..], "builder-domain", "{told}: domain {gd:?}");
            ensure!(root.as_ref() as &[u8] == &want[..], "builder-root", "{told}: root {root:?}");
            ensure!(s.as_ref() as &[u8] == &bls::sign(k, &want)[..], "builder-signature", "{told}");
            Ok(())
        }
        x => fail("builder-signature", format!("{told}: {}", x.kind())),
    }
}
fn main() {
    pbt::main(Check {
        property: "C32",
        rule: "A case is a candidate peer identifier (multihash of any code and length, its text and mutations of both); node metadata text, whole or spoilt; any duty or builder message of either preset; or a registration signed on a named or random network. It counts once per distinct content.",
        assumptions: &["signatures are those of the stand-in for blst; multihash and bs58 are stand-ins written from their specifications"],
        subs: vec![
            Sub { name: "known", quick: 1, thorough: 1, f: known },
            Sub { name: "constants", quick: 1, thorough: 1, f: constants },
            Sub { name: "ids", quick: 600000, thorough: 6000000, f: ids },
            Sub { name: "metadata", quick: 240000, thorough: 2400000, f: metadata },
            Sub { name: "duties", quick: 240000, thorough: 2400000, f: duties },
            Sub { name: "registration", quick: 120000, thorough: 1200000, f: registration },
        ],
    })
}

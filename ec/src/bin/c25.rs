//! C25: keys, signatures and aggregates
use ec::crypto::{
    aggregate, aggregate_verify, eth_aggregate_public_keys, eth_fast_aggregate_verify, fast_aggregate_verify, hash, verify_signature, PublicKey,
    SecretKey, Signature,
};
use eccheck::{ssz::sha, *};
use vfr::{encode_off_group, Fr};

const R: [u8; 32] = [
    0x73, 0xed, 0xa7, 0x53, 0x29, 0x9d, 0x7d, 0x48, 0x33, 0x39, 0xd8, 0x08, 0x09, 0xa1, 0xd8, 0x05, 0x53, 0xbd, 0xa4, 0x02, 0xff, 0xfe, 0x5b,
    0xfe, 0xff, 0xff, 0xff, 0xff, 0x00, 0x00, 0x00, 0x01,
];
fn hmac(key: &[u8], msg: &[&[u8]]) -> H {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..32].copy_from_slice(&sha(&[key]));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let i: Vec<u8> = k.iter().map(|x| x ^ 0x36).collect();
    let o: Vec<u8> = k.iter().map(|x| x ^ 0x5c).collect();
    let inner = sha(&[&i, &msg.concat()]);
    sha(&[&o, &inner])
}
/// derive_master_SK of EIP-2333
fn master(seed: &[u8]) -> Fr {
    let mut salt = b"BLS-SIG-KEYGEN-SALT-".to_vec();
    loop {
        salt = sha(&[&salt]).to_vec();
        let prk = hmac(&salt, &[seed, &[0]]);
        let t1 = hmac(&prk, &[&[0, 48, 1]]);
        let t2 = hmac(&prk, &[&t1, &[0, 48, 2]]);
        let k = Fr::reduce_be(&[t1.as_slice(), &t2[..16]].concat());
        if !k.is_zero() {
            return k;
        }
    }
}
fn valid_sk(b: &[u8]) -> bool {
    b.len() == 32 && b != [0u8; 32] && b < R.as_slice()
}
/// JSON text of bytes
fn text(b: &[u8]) -> String {
    let mut s = String::from("\"0x");
    b.iter().for_each(|x| s += &format!("{x:02x}"));
    s + "\""
}
fn secret(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let b: Vec<u8> = match src.below(8) {
        0 => {
            let mut r = R;
            match src.below(4) {
                0 => r[31] = 0,
                1 => r[31] = 2,
                2 => r[31] = 1,
                _ => r[src.idx(32)] ^= 1 << src.below(8),
            }
            r.to_vec()
        }
        1 => {
            let n = *src.pick(&[0, 1, 16, 31, 33, 48, 64]);
            src.bytes(n)
        }
        2 => {
            let mut z = [0; 32];
            if src.bool() {
                z[31 - src.idx(4)] = src.below(4) as u8;
            }
            z.to_vec()
        }
        _ => {
            let mut a: H = src.arr();
            if src.bool() {
                a[0] &= 0x3f;
            }
            a.to_vec()
        }
    };
    obs.hit(&b);
    let ok = valid_sk(&b);
    obs.label(if ok { "secret key" } else { "not a secret key" });
    obs.sample(|| format!("secret key bytes {}", ssz::hex(&b)));
    let who = format!("secret key bytes {}", ssz::hex(&b));
    let j = text(&b);
    let j2 = j.replacen("0x", "", 1);
    let js = if src.bool() { &j } else { &j2 };
    let got = run(|| SecretKey::try_from(b.as_slice()));
    let parsed = run(|| serde_json::from_str::<SecretKey>(js));
    if !ok {
        ensure!(matches!(got, Got::Err(_)), "secret-accepts", "{who}: {}", got.kind());
        ensure!(matches!(parsed, Got::Err(_)), "secret-json-accepts", "{who}: {}", parsed.kind());
        return Ok(());
    }
    let (Got::Ok(k), Got::Ok(k2)) = (got, parsed) else { return fail("secret-refuses", who) };
    let fr = Fr::from_be(&b).unwrap();
    let p = k.public_key();
    ensure_eq!(p.to_vec(), bls::pk_of(&fr).to_vec(), "public-key", "{who}");
    let shown = format!("{k:?} {k:#?}");
    let other = SecretKey::try_from(bls::sk(41).to_be().as_slice()).unwrap();
    ensure_eq!(shown, format!("{other:?} {other:#?}"), "debug", "{who}: what is printed depends on the key");
    ensure_eq!(k.to_bytes().to_vec(), b, "secret-bytes", "{who}");
    ensure_eq!(k2.to_bytes().to_vec(), b, "secret-json", "{who}");
    Ok(())
}
fn derive(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let n = match src.below(4) {
        0 => src.below(33) as usize,
        1 => *src.pick(&[32, 64]),
        _ => src.range(32, 130) as usize,
    };
    let seed = src.bytes(n);
    obs.hit(&seed);
    obs.label(if n < 32 { "seed too short" } else { "seed" });
    obs.sample(|| format!("seed {}", ssz::hex(&seed)));
    let who = format!("seed {}", ssz::hex(&seed));
    let a = run(|| SecretKey::from_bytes(&seed));
    let g = run(|| SecretKey::key_gen(&seed));
    if n < 32 {
        ensure!(matches!((&a, &g), (Got::Err(_), Got::Err(_))), "short-seed", "{who}: {} {}", a.kind(), g.kind());
        return Ok(());
    }
    let (Got::Ok(a), Got::Ok(g)) = (a, g) else { return fail("seed-refused", who) };
    ensure_eq!(a.to_bytes(), master(&seed).to_be(), "eip2333", "{who}");
    let p = g.public_key();
    let s = g.sign(&seed);
    let gb = g.to_bytes();
    ensure!(valid_sk(&gb), "keygen", "{who}");
    ensure_eq!(SecretKey::key_gen(&seed).unwrap().to_bytes(), gb, "keygen", "{who}: differs on a second run");
    ensure!(verify_signature(&p, &seed, &s).is_ok(), "keygen", "{who}: the generated key's signature does not verify");
    ensure_eq!(hash(&seed).to_vec(), sha(&[&seed]).to_vec(), "hash", "{who}");
    // random key: the generator's bytes through the same derivation
    use rand::{rngs::StdRng, RngCore, SeedableRng};
    let x = src.u64();
    let mut ikm = [0; 32];
    StdRng::seed_from_u64(x).fill_bytes(&mut ikm);
    let r = SecretKey::random(&mut StdRng::seed_from_u64(x)).map(|k| k.to_bytes());
    let r2 = SecretKey::random(&mut StdRng::seed_from_u64(x ^ 1)).map(|k| k.to_bytes());
    let (Ok(r), Ok(r2)) = (r, r2) else { return fail("random", format!("rng {x}")) };
    ensure!(valid_sk(&r) && r != r2, "random", "rng {x}: {r:?} {r2:?}");
    ensure_eq!(r, SecretKey::key_gen(&ikm).unwrap().to_bytes(), "random", "rng {x}");
    Ok(())
}
fn dec(s: &str) -> Fr {
    s.bytes().fold(Fr::ZERO, |a, c| a.mul(&Fr::from_u64(10)).add(&Fr::from_u64((c - b'0') as u64)))
}
fn vectors(_: &mut Src, obs: &mut Obs) -> CaseResult {
    for (seed, sk) in [
        (
            "c55257c360c07c72029aebc1b53c05ed0362ada38ead3e3e9efa3708e53495531f09a6987599d18264c1e1c92f2cf141630c7a3c4ab7c81b2f001698e7463b04",
            "6083874454709270928345386274498605044986640685124978867557563392430687146096",
        ),
        (
            "3141592653589793238462643383279502884197169399375105820974944592",
            "29757020647961307431480504535336562678282505419141012933316116377660817309383",
        ),
        (
            "0099FF991111002299DD7744EE3355BBDD8844115566CC55663355668888CC00",
            "27580842291869792442942448775674722299803720648445448686099262467207037398656",
        ),
        (
            "d4e56740f876aef8c010b86a40d5f56745a118d0906a34e69aec8c0db1cb8fa3",
            "19022158461524446591288038168518313374041767046816487870552872741050760015818",
        ),
    ] {
        obs.hit(seed.as_bytes());
        let b: Vec<u8> = (0..seed.len() / 2).map(|i| u8::from_str_radix(&seed[2 * i..2 * i + 2], 16).unwrap()).collect();
        let k = SecretKey::from_bytes(&b).map(|k| k.to_bytes());
        ensure!(k.as_ref().ok() == Some(&dec(sk).to_be()), "eip2333-vector", "seed {seed}: {k:?}, want {sk}");
    }
    Ok(())
}
fn key(src: &mut Src) -> Fr {
    match src.below(3) {
        0 => Fr::reduce_be(&src.arr::<32>()).add(&Fr::ONE),
        _ => bls::sk(src.below(12)),
    }
}
fn message(src: &mut Src) -> Vec<u8> {
    let n = match src.below(6) {
        0 => 0,
        1 => src.below(200) as usize,
        _ => 32,
    };
    match src.bool() {
        true => vec![src.below(3) as u8; n],
        false => src.bytes(n),
    }
}
/// something that is not a public key
fn bad_pk(src: &mut Src) -> ([u8; 48], &'static str) {
    match src.below(5) {
        0 => (bls::pk_of(&Fr::ZERO), "infinity"),
        1 => (encode_off_group::<48>(b"pk", &key(src)), "off-group key"),
        2 => (src.arr(), "random bytes for a key"),
        3 => ([0; 48], "zero bytes for a key"),
        _ => {
            let mut p = bls::pk_of(&key(src));
            p[0] ^= *src.pick(&[0x80, 0x40, 0x20]);
            (p, "key with a wrong flag")
        }
    }
}
fn bad_sig(src: &mut Src, good: &[u8; 96]) -> ([u8; 96], &'static str) {
    match src.below(6) {
        0 => (bls::INF_SIG, "infinity for a signature"),
        1 => (encode_off_group::<96>(b"sig", &bls::sig_point(good).unwrap()), "off-group signature"),
        2 => (src.arr(), "random bytes for a signature"),
        3 => ([0; 96], "zero bytes for a signature"),
        4 => {
            let mut s = *good;
            s[0] ^= *src.pick(&[0x80, 0x40, 0x20]);
            (s, "signature with a wrong flag")
        }
        _ => {
            let mut s = *good;
            s[src.idx(96)] ^= 1 << src.below(8);
            (s, "signature with a bit flipped")
        }
    }
}
fn pk(b: &[u8; 48]) -> PublicKey {
    PublicKey::try_from(b.as_slice()).unwrap()
}
fn sg(b: &[u8; 96]) -> Signature {
    Signature::try_from(b.as_slice()).unwrap()
}
/// compares an acceptance with the model's
fn judge(who: &str, sig: &str, got: Got<()>, want: bool) -> CaseResult {
    match (&got, want) {
        (Got::Ok(()), true) | (Got::Err(_), false) => Ok(()),
        _ => fail(sig, format!("{who}: {}, the definition says {}", got.kind(), if want { "valid" } else { "invalid" })),
    }
}
fn one(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let (k, m) = (key(src), message(src));
    let s = bls::sign_with(&k, &m);
    let sk = SecretKey::try_from(k.to_be().as_slice()).unwrap();
    let made = match run(|| Ok::<_, String>(sk.sign(&m))) {
        Got::Ok(s) => s,
        x => return fail("sign", x.kind()),
    };
    let who = format!("secret key {}, message {}", ssz::hex(&k.to_be()), ssz::hex(&m));
    ensure_eq!(made.as_ref(), s.as_slice(), "sign", "{who}");
    let (mut p2, mut m2, mut s2) = (bls::pk_of(&k), m.clone(), s);
    let what = match src.below(8) {
        0 | 1 => "nothing",
        2 => {
            let (a, b) = bad_pk(src);
            p2 = a;
            b
        }
        3 => {
            let (a, b) = bad_sig(src, &s);
            s2 = a;
            b
        }
        4 => {
            m2 = message(src);
            "the message"
        }
        5 => {
            match src.idx(3) {
                0 => m2.push(0),
                1 if !m2.is_empty() => drop(m2.pop()),
                _ if !m2.is_empty() => {
                    let i = src.idx(m2.len());
                    m2[i] ^= 1 << src.below(8)
                }
                _ => m2.push(1),
            }
            "the message slightly"
        }
        6 => {
            p2 = bls::pk_of(&key(src));
            "the key"
        }
        _ => {
            s2 = bls::sign_with(&key(src), &m);
            "the signature"
        }
    };
    obs.hit(&[k.to_be().as_slice(), &m2, &p2, &s2].concat());
    obs.label(what);
    obs.sample(|| format!("{who}; changed: {what}"));
    judge(&format!("{who}; changed: {what}"), "verify", run(|| verify_signature(&pk(&p2), &m2, &sg(&s2))), bls::verify(&p2, &m2, &s2))
}
fn many(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let n = match src.below(8) {
        0 => 0,
        1 => 1,
        _ => src.range(2, 8) as usize,
    };
    let ks: Vec<Fr> = (0..n).map(|_| key(src)).collect();
    let same = src.bool();
    let first = message(src);
    let ms: Vec<Vec<u8>> = (0..n).map(|_| if same { first.clone() } else { message(src) }).collect();
    let mut ps: Vec<[u8; 48]> = ks.iter().map(bls::pk_of).collect();
    let mut ss: Vec<[u8; 96]> = ks.iter().zip(&ms).map(|(k, m)| bls::sign_with(k, m)).collect();
    let mut notes = vec![];
    // signatures
    if n > 0 && src.chance(1, 4) {
        let i = src.idx(n);
        let (s, w) = bad_sig(src, &ss[i]);
        ss[i] = s;
        notes.push(w);
    }
    let points: Option<Vec<Fr>> = ss.iter().map(bls::sig_point).collect();
    let want = match points {
        Some(v) if n > 0 => Some(vfr::encode_point::<96>(b"sig", &v.iter().fold(Fr::ZERO, |a, x| a.add(x)))),
        _ => None,
    };
    let shown = ks.iter().map(|k| ssz::hex(&k.to_be())).collect::<Vec<_>>().join(" ");
    let sigs: Vec<Signature> = ss.iter().map(sg).collect();
    let got = run(|| aggregate(&sigs));
    match (&got, &want) {
        (Got::Err(_), None) => (),
        (Got::Ok(g), Some(w)) => ensure_eq!(g.as_ref(), w.as_slice(), "aggregate", "aggregate of {n} signatures {notes:?} by keys {shown}"),
        _ => return fail("aggregate", format!("aggregate of {n} signatures {notes:?} by keys {shown}: {}", got.kind())),
    }
    let whole = want.unwrap_or(bls::INF_SIG);
    let mut agg = match src.below(8) {
        0 => bad_sig(src, &whole).0,
        1 => bls::INF_SIG,
        2 if n > 1 => bls::sign_with(&ks[0], &ms[0]),
        _ => whole,
    };
    // keys and messages
    let mut msv = ms.clone();
    let mut common = first.clone();
    match src.below(10) {
        0 if n > 0 => {
            let i = src.idx(n);
            let (p, w) = bad_pk(src);
            ps[i] = p;
            notes.push(w);
        }
        1 => {
            ps.push(bls::pk_of(&key(src)));
            notes.push("a key more");
        }
        2 if n > 0 => {
            ps.remove(src.idx(n));
            notes.push("a key less");
        }
        3 if n > 0 => {
            let i = src.idx(n);
            msv[i] = message(src);
            common = message(src);
            notes.push("a message changed");
        }
        4 if n > 0 => {
            msv.pop();
            notes.push("a message less");
        }
        5 => {
            msv.push(first.clone());
            notes.push("a message more");
        }
        6 if n > 1 => {
            let i = src.idx(n - 1);
            ps.swap(i, i + 1);
            notes.push("two keys swapped");
        }
        7 if n > 0 => {
            let i = src.idx(n);
            let p = ps[i];
            ps.push(p);
            let m = msv[i].clone();
            msv.push(m);
            notes.push("a pair twice");
            if src.bool() {
                if let (Some(a), true) = (bls::sig_point(&agg), true) {
                    agg = vfr::encode_point::<96>(b"sig", &a.add(&bls::sig_point(&bls::sign_with(&ks[i], &ms[i])).unwrap()));
                }
            }
        }
        8 if n > 1 => {
            // the same pairs in another order
            ps.rotate_left(1);
            msv.rotate_left(1);
            notes.push("rotated");
        }
        _ => (),
    }
    obs.hit(format!("{shown} {ps:?} {msv:?} {agg:?}").as_bytes());
    obs.label(&format!("{} {}", if n == 0 { "none," } else if same { "same message," } else { "several messages," }, notes.last().unwrap_or(&"unchanged")));
    let who = format!("keys {shown}; {notes:?}; {} messages, {}", msv.len(), if same { "all equal" } else { "any" });
    obs.sample(|| who.clone());
    let pks: Vec<PublicKey> = ps.iter().map(pk).collect();
    let refs: Vec<&PublicKey> = pks.iter().collect();
    let mrefs: Vec<&[u8]> = msv.iter().map(|m| m.as_slice()).collect();
    let s = sg(&agg);
    let want = !ps.is_empty()
        && ps.len() == msv.len()
        && match (ps.iter().map(bls::pk_point).collect::<Option<Vec<_>>>(), bls::sig_point(&agg)) {
            (Some(p), Some(g)) => p.iter().zip(&msv).fold(Fr::ZERO, |a, (p, m)| a.add(&p.mul(&bls::h(m)))) == g,
            _ => false,
        };
    judge(&who, "aggregate-verify", run(|| aggregate_verify(&pks, &mrefs, &s)), want)?;
    judge(&who, "fast-aggregate-verify", run(|| fast_aggregate_verify(&refs, &common, &s)), bls::fast_aggregate_verify(&ps, &common, &agg))?;
    judge(&who, "eth-fast-aggregate-verify", run(|| eth_fast_aggregate_verify(&refs, &common, &s)), bls::eth_fast_aggregate_verify(&ps, &common, &agg))?;
    let got = run(|| eth_aggregate_public_keys(&pks));
    match (&got, bls::agg_pk(&ps)) {
        (Got::Err(_), None) => Ok(()),
        (Got::Ok(g), Some(w)) => {
            ensure_eq!(g.as_ref(), w.as_slice(), "aggregate-keys", "{who}");
            Ok(())
        }
        _ => fail("aggregate-keys", format!("{who}: {}", got.kind())),
    }
}
fn forms(src: &mut Src, obs: &mut Obs) -> CaseResult {
    use ssz_rs::prelude::*;
    fn check<T>(b: &[u8], n: usize, name: &str) -> CaseResult
    where
        T: for<'a> TryFrom<&'a [u8]> + AsBytes + serde::Serialize + serde::de::DeserializeOwned + SimpleSerialize + Clone + PartialEq + std::fmt::Debug,
        for<'a> <T as TryFrom<&'a [u8]>>::Error: std::fmt::Display + std::fmt::Debug,
    {
        let who = format!("{name} from {}", ssz::hex(b));
        let j = text(b);
        let a = run(|| T::try_from(b).map_err(|e| e.to_string()));
        let c = run(|| serde_json::from_str::<T>(&j));
        let d = run(|| <T as Deserialize>::deserialize(b));
        if b.len() != n {
            ensure!(matches!(a, Got::Err(_)), format!("{name}-length"), "{who}: bytes {}", a.kind());
            ensure!(matches!(c, Got::Err(_)), format!("{name}-length"), "{who}: JSON {}", c.kind());
            ensure!(matches!(d, Got::Err(_)), format!("{name}-length"), "{who}: SSZ {}", d.kind());
            return Ok(());
        }
        let (Got::Ok(a), Got::Ok(c), Got::Ok(d)) = (a, c, d) else { return fail(format!("{name}-refused"), who) };
        ensure!(a == c && a == d, format!("{name}-equal"), "{who}: {a:?} {c:?} {d:?}");
        ensure_eq!(a.bytes(), b, format!("{name}-bytes"), "{who}");
        ensure_eq!(serde_json::to_string(&a).unwrap(), j, format!("{name}-json"), "{who}");
        let mut out = vec![];
        let r = run(|| Serialize::serialize(&a, &mut out));
        ensure!(matches!(r, Got::Ok(_)) && out == b, format!("{name}-ssz"), "{who}: SSZ {out:?}");
        let t = ssz::Ty::Bytes(n);
        let v = ssz::decode(b, &t).unwrap();
        ensure_eq!(a.hash_tree_root().unwrap().to_vec(), ssz::htr(&v, &t).to_vec(), format!("{name}-root"), "{who}");
        let mut e = a.clone();
        e.flip();
        ensure!(e != a, format!("{name}-equal"), "{who}: equal to another");
        Ok(())
    }
    let n = if src.bool() { 48 } else { 96 };
    let len = match src.below(5) {
        0 => *src.pick(&[0, 1, 20, 32, 47, 49, 95, 97, 48, 96]),
        _ => n,
    };
    let b = match src.below(4) {
        0 if len == 48 => bls::pk_of(&key(src)).to_vec(),
        0 if len == 96 => bls::sign_with(&key(src), b"m").to_vec(),
        1 => vec![0; len],
        _ => src.bytes(len),
    };
    obs.hit(&b);
    obs.label(if n == 48 { "public key" } else { "signature" });
    obs.sample(|| format!("{n} bytes wanted, {}", ssz::hex(&b)));
    if n == 48 {
        check::<PublicKey>(&b, n, "public-key")
    } else {
        check::<Signature>(&b, n, "signature")?;
        if b.len() == 96 {
            let s = Signature::try_from(b.as_slice()).unwrap();
            ensure_eq!(s.is_infinity(), b == bls::INF_SIG, "is-infinity", "{}", ssz::hex(&b));
            let mut i = bls::INF_SIG;
            ensure!(sg(&i).is_infinity(), "is-infinity", "the encoding of infinity");
            i[src.idx(96)] ^= 1 << src.below(8);
            ensure!(!sg(&i).is_infinity(), "is-infinity", "{}", ssz::hex(&i));
        }
        Ok(())
    }
}
trait AsBytes {
    fn bytes(&self) -> &[u8];
    fn flip(&mut self);
}
impl AsBytes for PublicKey {
    fn bytes(&self) -> &[u8] {
        self.as_ref()
    }
    fn flip(&mut self) {
        let mut b: Vec<u8> = self.as_ref().to_vec();
        b[47] ^= 1;
        *self = PublicKey::try_from(b.as_slice()).unwrap();
    }
}
impl AsBytes for Signature {
    fn bytes(&self) -> &[u8] {
        self.as_ref()
    }
    fn flip(&mut self) {
        let mut b: Vec<u8> = self.as_ref().to_vec();
        b[95] ^= 1;
        *self = Signature::try_from(b.as_slice()).unwrap();
    }
}
fn main() {
    pbt::main(Check {
        property: "C25",
        rule: "A case is a candidate secret key or seed; a key, message and signature of which at most one part is replaced by a wrong, malformed, off-group or infinite one; a list of up to eight such triples aggregated and verified with keys, messages or the signature added, dropped, exchanged, repeated or spoilt; or candidate bytes of a key or signature. It counts once per distinct content.",
        assumptions: &["the pairing groups are those of the stand-in for blst (discrete logarithms): the equations are exact, unforgeability is not explored", "sha256 has no collisions among the cases"],
        subs: vec![
            Sub { name: "vectors", quick: 1, thorough: 1, f: vectors },
            Sub { name: "secret", quick: 360000, thorough: 3600000, f: secret },
            Sub { name: "derive", quick: 120000, thorough: 1200000, f: derive },
            Sub { name: "one", quick: 720000, thorough: 7200000, f: one },
            Sub { name: "many", quick: 600000, thorough: 6000000, f: many },
            Sub { name: "forms", quick: 360000, thorough: 3600000, f: forms },
        ],
    })
}

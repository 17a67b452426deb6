//! C30: mnemonics, derived keys and keystores of the `ec` tool
use aes::{cipher::BlockEncrypt16, Aes128};
use bip39::Language;
use ecbin::validator::{
    keys::{self, KeyPair},
    keystores, mnemonic,
};
use ethereum_consensus::crypto::SecretKey;
use pbt::*;
use serde_json::Value;
use sha2::{Digest, Sha256, Sha512};
use std::{
    collections::HashSet,
    sync::{atomic::*, Mutex},
};
use unicode_normalization::UnicodeNormalization;
use vfr::Fr;

fn sha(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Sha256::new();
    parts.iter().for_each(|p| h.update(p));
    h.finalize().into()
}
fn hmac(key: &[u8], parts: &[&[u8]]) -> [u8; 32] {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..32].copy_from_slice(&sha(&[key]));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let inner = sha(&[&[&k.map(|b| b ^ 0x36)[..]], parts].concat());
    sha(&[&k.map(|b| b ^ 0x5c), &inner])
}
fn sha512(parts: &[&[u8]]) -> [u8; 64] {
    let mut h = Sha512::new();
    parts.iter().for_each(|p| h.update(p));
    h.finalize().into()
}
fn pbkdf2_512(pw: &[u8], salt: &[u8]) -> [u8; 64] {
    let mut k = [0u8; 128];
    if pw.len() > 128 {
        k[..64].copy_from_slice(&sha512(&[pw]));
    } else {
        k[..pw.len()].copy_from_slice(pw);
    }
    let (i, o) = (k.map(|b| b ^ 0x36), k.map(|b| b ^ 0x5c));
    let mac = |m: &[&[u8]]| sha512(&[&o, &sha512(&[&[&i[..]], m].concat())]);
    let mut u = mac(&[salt, &[0, 0, 0, 1]]);
    let mut t = u;
    for _ in 1..2048 {
        u = mac(&[&u]);
        t.iter_mut().zip(&u).for_each(|(a, b)| *a ^= b);
    }
    t
}
/// BIP-39: words of an entropy
fn words(entropy: &[u8]) -> Vec<&'static str> {
    let list = Language::English.word_list();
    let mut bits: Vec<u8> = entropy.iter().flat_map(|b| (0..8).map(move |k| b >> (7 - k) & 1)).collect();
    let check = sha(&[entropy])[0];
    bits.extend((0..entropy.len() / 4).map(|k| check >> (7 - k) & 1));
    bits.chunks(11).map(|c| list[c.iter().fold(0usize, |a, b| 2 * a + *b as usize)]).collect()
}
/// EIP-2333
fn mod_r(ikm: &[u8]) -> Fr {
    let mut salt = b"BLS-SIG-KEYGEN-SALT-".to_vec();
    loop {
        salt = sha(&[&salt]).to_vec();
        let prk = hmac(&salt, &[ikm, &[0]]);
        let t1 = hmac(&prk, &[&[0, 48, 1]]);
        let t2 = hmac(&prk, &[&t1, &[0, 48, 2]]);
        let k = Fr::reduce_be(&[t1.as_slice(), &t2[..16]].concat());
        if !k.is_zero() {
            return k;
        }
    }
}
fn child(parent: &Fr, index: u32) -> Fr {
    let lamport = |ikm: &[u8]| {
        let prk = hmac(&index.to_be_bytes(), &[ikm]);
        let (mut t, mut out) = (vec![], vec![]);
        for i in 1..=255u8 {
            t = hmac(&prk, &[&t, &[i]]).to_vec();
            out.extend_from_slice(&sha(&[&t]));
        }
        out
    };
    let ikm = parent.to_be();
    mod_r(&sha(&[&lamport(&ikm), &lamport(&ikm.map(|b| !b))]))
}
fn derive(seed: &[u8], path: &[u32]) -> Fr {
    path.iter().fold(mod_r(seed), |k, i| child(&k, *i))
}
/// EIP-2335: normal form of a password
fn normal(pw: &str) -> String {
    pw.nfkd().filter(|c| !matches!(*c as u32, 0..=0x1f | 0x7f..=0x9f)).collect()
}
/// EIP-2335: opens the keystore with a password; None when the checksum is another
fn open(v: &Value, pw: &str) -> Result<Option<Vec<u8>>, Failure> {
    let bytes = |p: &str| -> Result<Vec<u8>, Failure> {
        let s = v.pointer(p).and_then(|x| x.as_str());
        match s.and_then(|s| hex::decode(s).ok()) {
            Some(b) => Ok(b),
            None => fail("keystore-form", format!("{p} is {:?}", v.pointer(p))),
        }
    };
    let num = |p: &str| v.pointer(p).and_then(|x| x.as_u64()).unwrap_or(0);
    for (p, w) in [
        ("/crypto/kdf/function", "scrypt"),
        ("/crypto/checksum/function", "sha256"),
        ("/crypto/cipher/function", "aes-128-ctr"),
        ("/crypto/kdf/message", ""),
    ] {
        ensure!(v.pointer(p).and_then(|x| x.as_str()) == Some(w), "keystore-form", "{p} is {:?}", v.pointer(p));
    }
    ensure!(v.pointer("/crypto/checksum/params") == Some(&serde_json::json!({})), "keystore-form", "checksum params");
    let n = num("/crypto/kdf/params/n");
    ensure!(n.is_power_of_two() && num("/crypto/kdf/params/dklen") == 32, "keystore-form", "{:?}", v.pointer("/crypto/kdf"));
    let (r, p) = (num("/crypto/kdf/params/r") as u32, num("/crypto/kdf/params/p") as u32);
    let params = match scrypt::Params::new(n.trailing_zeros() as u8, r, p, 32) {
        Ok(p) => p,
        Err(_) => return fail("keystore-form", format!("{:?}", v.pointer("/crypto/kdf"))),
    };
    let mut key = [0u8; 32];
    scrypt::scrypt(normal(pw).as_bytes(), &bytes("/crypto/kdf/params/salt")?, &params, &mut key).unwrap();
    let text = bytes("/crypto/cipher/message")?;
    if sha(&[&key[16..], &text]).to_vec() != bytes("/crypto/checksum/message")? {
        return Ok(None);
    }
    let iv: [u8; 16] = match bytes("/crypto/cipher/params/iv")?.try_into() {
        Ok(iv) => iv,
        Err(_) => return fail("keystore-form", "IV is not of 16 bytes"),
    };
    let aes = Aes128::from_key(&key[..16]).unwrap();
    let mut out = vec![];
    for (i, c) in text.chunks(16).enumerate() {
        let mut b = u128::from_be_bytes(iv).wrapping_add(i as u128).to_be_bytes();
        aes.encrypt16(&mut b);
        out.extend(c.iter().zip(b).map(|(x, y)| x ^ y));
    }
    Ok(Some(out))
}
fn attempt<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Failure> {
    match guard(f) {
        Ok(r) => Ok(r),
        Err(p) => fail(format!("{what}-panic"), format!("{what} panics: {p}")),
    }
}
fn vectors(_: &mut Src, obs: &mut Obs) -> CaseResult {
    // the oracles themselves, against the published vectors
    obs.hit(b"vectors");
    let v = serde_json::json!({"crypto": {
        "kdf": {"function": "scrypt", "message": "", "params": {"dklen": 32, "n": 262144, "p": 1, "r": 8,
            "salt": "d4e56740f876aef8c010b86a40d5f56745a118d0906a34e69aec8c0db1cb8fa3"}},
        "checksum": {"function": "sha256", "params": {}, "message": "d2217fe5f3e9a1e34581ef8a78f7c9928e436d36dacc5e846690a5581e8ea484"},
        "cipher": {"function": "aes-128-ctr", "params": {"iv": "264daa3f303d7259501c93d997d84fe6"},
            "message": "06ae90d55fe0a6e9c5c3bc5b170827b2e5cce3929ed3f116c2811e6366dfe20f"}}});
    let got = open(&v, "𝔱𝔢𝔰𝔱𝔭𝔞𝔰𝔰𝔴𝔬𝔯𝔡🔑")?;
    assert_eq!(hex::encode(got.expect("EIP-2335 vector")), "000000000019d6689c085ae165831e934ff763ae46a2a6c172b3f1b60a8ce26f");
    let phrase = words(&[0; 16]).join(" ");
    let seed = pbkdf2_512(phrase.as_bytes(), b"mnemonicTREZOR");
    assert!(hex::encode(seed).starts_with("c55257c360c07c72029aebc1b53c05ed"));
    let root = mod_r(&seed);
    assert_eq!(hex::encode(root.to_be()), "0d7359d57963ab8fbbde1852dcf553fedbc31f464d80ee7d40ae683122b45070");
    assert_eq!(hex::encode(child(&root, 0).to_be()), "2d18bd6c14e6d15bf8b5085c9b74f3daae3b03cc2014770a599d8c1539e50f8e");
    Ok(())
}
const ODD: &[char] = &[
    'é', 'Å', 'ﬁ', 'Ⅷ', '½', '가', 'ｗ', '𝔱', '🔑', 'ß', 'İ', '\u{301}', '\u{323}', '\u{212b}', '\u{1e9b}', '\u{3000}',
    '\u{a0}', '\u{2003}', '\u{200b}', '\u{feff}', '\u{ad}', '\u{202e}', '\u{0}', '\u{1}', '\t', '\n', '\u{1f}', '\u{7f}', '\u{80}',
    '\u{85}', '\u{9f}', '\u{e000}', '\u{10ffff}', '㌀', '①', '\u{345}', '\u{fdfa}',
];
fn password(src: &mut Src) -> String {
    let n = match src.below(8) {
        0 => 0,
        1 => src.usize(60, 140),
        _ => src.usize(1, 16),
    };
    let odd = src.below(3);
    (0..n)
        .map(|_| match src.below(6) {
            0..=1 if odd > 0 => *src.pick(ODD),
            2 if odd > 1 => loop {
                if let Some(c) = char::from_u32(src.below(0x11_0000) as u32) {
                    break c;
                }
            },
            _ => (0x20 + src.below(95) as u8) as char,
        })
        .collect()
}
fn phrases(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let entropy = {
        let n = 4 * src.usize(4, 8);
        match src.below(6) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            _ => src.bytes(n),
        }
    };
    let mut w: Vec<String> = words(&entropy).into_iter().map(Into::into).collect();
    let right = w.clone();
    let list = Language::English.word_list();
    let kind = src.below(9);
    match kind {
        0 => {
            let i = src.idx(w.len());
            w[i] = src.pick(list).to_string();
        }
        1 => {
            let i = src.idx(w.len());
            let j = src.idx(w.len());
            w.swap(i, j);
        }
        2 => drop(w.remove(src.idx(right.len()))),
        3 => w.insert(src.idx(right.len()), src.pick(list).to_string()),
        4 => {
            let i = src.idx(w.len());
            w[i] = src.pick(&["", "zzz", "aband", "abandonn", "é", "0"]).to_string();
        }
        _ => (),
    }
    w.retain(|x| !x.is_empty());
    // what the words say
    let idx: Option<Vec<usize>> = w.iter().map(|x| list.iter().position(|y| y == x)).collect();
    let valid = matches!(w.len(), 12 | 15 | 18 | 21 | 24)
        && idx.is_some_and(|idx| {
            let bits: Vec<u8> = idx.iter().flat_map(|i| (0..11).map(move |k| (i >> (10 - k) & 1) as u8)).collect();
            let n = w.len() / 3 * 4;
            let e: Vec<u8> = bits[..8 * n].chunks(8).map(|c| c.iter().fold(0, |a, b| 2 * a + b)).collect();
            words(&e) == w
        });
    let plain = w.join(" ");
    let phrase = match src.below(6) {
        0 => w.join("  "),
        1 => format!(" {plain}\n"),
        2 => w.join("\u{3000}"),
        _ => plain.clone(),
    };
    let pass = if src.chance(1, 3) { None } else { Some(password(src)) };
    obs.label(if valid { "valid phrase" } else { "invalid phrase" });
    obs.hit(format!("{phrase}/{pass:?}").as_bytes());
    obs.sample(|| format!("phrase {phrase:?} with passphrase {pass:?}"));
    match (attempt("phrase", || mnemonic::recover_from_phrase(&phrase))?, valid) {
        (Ok(m), true) => {
            ensure!(m.to_string() == plain, "phrase", "{phrase:?} reads as {m}");
            let seed = attempt("seed", || mnemonic::to_seed(m, pass.as_deref()))?;
            let salt: String = format!("mnemonic{}", pass.unwrap_or_default()).nfkd().collect();
            let want = pbkdf2_512(plain.as_bytes(), salt.as_bytes());
            ensure!(seed == want, "seed", "seed of {plain:?}, salt {salt:?}");
        }
        (Err(_), false) => (),
        (Err(_), true) if phrase != plain => obs.label("other spaces refused"),
        (Err(e), true) => return fail("phrase-refused", format!("{phrase:?}: {e}")),
        (Ok(_), false) => return fail("phrase-accepted", format!("{phrase:?} is no mnemonic")),
    }
    Ok(())
}
fn seed(src: &mut Src) -> [u8; 64] {
    match src.below(8) {
        0 => [src.below(2) as u8 * 255; 64],
        _ => src.arr(),
    }
}
fn check_pair(k: &KeyPair, want: &Fr, path: &str, what: &str) -> CaseResult {
    let b = want.to_be();
    ensure!(k.private_key.clone().to_bytes().as_ref() == &b[..], "key", "{what} of {path} is another");
    ensure!(k.path == path, "key-path", "{what}: path {} instead of {path}", k.path);
    let public = SecretKey::try_from(&b[..]).unwrap().public_key();
    ensure!(k.public_key == public, "key-public", "{what} of {path}: public key");
    Ok(())
}
fn derived(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let seed = seed(src);
    let n = src.weighted(&[2, 8, 4, 3, 1, 1]) as u32;
    let start = match src.below(6) {
        0 => 0,
        1 => src.below(300) as u32,
        2 => u32::MAX - n - src.below(2) as u32,
        3 => (1u32 << src.range(7, 31)) - src.below(2) as u32,
        _ => (src.edgy() as u32).min(u32::MAX - n),
    };
    let end = if n == 0 && src.bool() { start.saturating_sub(src.below(4) as u32) } else { start + n };
    obs.label(format!("{n} keys"));
    obs.hit(&[&seed[..], &start.to_be_bytes(), &end.to_be_bytes()].concat());
    obs.sample(|| format!("keys {start}..{end} of a seed {}…", hex::encode(&seed[..8])));
    let (signing, withdrawal) = attempt("generate", || keys::generate(&seed, start, end))?;
    ensure_eq!(signing.len(), n as usize, "key-count", "signing keys of {start}..{end}");
    ensure_eq!(withdrawal.len(), n as usize, "key-count", "withdrawal keys of {start}..{end}");
    for j in 0..n {
        let i = start + j;
        let w = derive(&seed, &[12381, 3600, i, 0]);
        check_pair(&withdrawal[j as usize], &w, &format!("m/12381/3600/{i}/0"), "withdrawal key")?;
        check_pair(&signing[j as usize], &child(&w, 0), &format!("m/12381/3600/{i}/0/0"), "signing key")?;
    }
    Ok(())
}
fn pair(src: &mut Src) -> (KeyPair, [u8; 32]) {
    let k = match src.below(8) {
        0 => Fr::from_u64(1 + src.below(300)),
        1 => Fr::ZERO.sub(&Fr::from_u64(1 + src.below(3))),
        _ => Fr::reduce_be(&src.arr::<32>()).add(&Fr::ONE),
    };
    let k = if k.is_zero() { Fr::ONE } else { k };
    let b = k.to_be();
    let private_key = SecretKey::try_from(&b[..]).unwrap();
    let public_key = private_key.public_key();
    let path = format!("m/12381/3600/{}/0/0", src.below(1000));
    (KeyPair { private_key, public_key, path }, b)
}
fn check_file(v: &Value, pw: &str, key: &[u8; 32], path: &str) -> CaseResult {
    let public = SecretKey::try_from(&key[..]).unwrap().public_key();
    let hex_public = hex::encode(public.as_ref() as &[u8]);
    let got = v["pubkey"].as_str().unwrap_or("");
    ensure!(got.strip_prefix("0x").unwrap_or(got) == hex_public, "keystore-pubkey", "pubkey {got}");
    ensure!(v["path"] == path, "keystore-path", "path {} instead of {path}", v["path"]);
    ensure!(v["version"] == 4, "keystore-version", "version {}", v["version"]);
    let id: Vec<usize> = v["uuid"].as_str().unwrap_or("").split('-').map(|p| p.len()).collect();
    ensure!(id == [8, 4, 4, 4, 12], "keystore-uuid", "uuid {}", v["uuid"]);
    match open(v, pw)? {
        Some(s) => ensure!(s == key, "keystore-secret", "the keystore with password {pw:?} holds {} instead of {}", hex::encode(s), hex::encode(key)),
        None => return fail("keystore-opens", format!("the keystore does not open with its password {pw:?}, normal form {:?}", normal(pw))),
    }
    Ok(())
}
static SLOW: AtomicUsize = AtomicUsize::new(0);
fn keystore(src: &mut Src, obs: &mut Obs) -> CaseResult {
    if SLOW.load(Ordering::Relaxed) > 4 {
        return Ok(());
    }
    let (kp, key) = pair(src);
    let path = kp.path.clone();
    let pw = password(src);
    let (log_n, r, p) = (src.range(1, 6) as u8, src.range(1, 8) as u32, src.range(1, 3) as u32);
    let random = src.u64();
    // IVs around the ends of counters
    let iv = match src.below(6) {
        0 => Some(u128::MAX - src.below(2) as u128),
        1 => Some((src.u64() as u128) << 64 | (u64::MAX - src.below(2)) as u128),
        2 => Some((src.u64() as u128) << 64 | (u32::MAX as u128) << 32 | (u32::MAX as u64 - src.below(2)) as u128),
        3 => Some(((src.u64() as u128) << 32 | u32::MAX as u128) | (src.u64() as u128) << 96),
        _ => None,
    };
    obs.label(if iv.is_some() { "counter wraps" } else { "random IV" });
    obs.label(if normal(&pw) == pw { "password in normal form" } else { "password to be normalised" });
    obs.hit(&[pw.as_bytes(), &key, &random.to_be_bytes()].concat());
    obs.sample(|| format!("keystore of {} with password {pw:?}, N=2^{log_n} r={r} p={p}", hex::encode(key)));
    let mut calls = random;
    scrypt::control::set_recommended(scrypt::Params::new(log_n, r, p, 32).ok());
    scrypt::control::set_rng(Some(Box::new(move |b: &mut [u8]| {
        // every draw of 16 bytes gives the chosen IV half of the time
        calls = mix(calls.wrapping_add(1));
        match iv {
            Some(iv) if b.len() == 16 => b.copy_from_slice(&iv.to_be_bytes()),
            _ => b.copy_from_slice(&expand(calls, b.len())),
        }
    })));
    let json = guard(|| keystores::verif_probe(kp, &pw));
    scrypt::control::set_recommended(None);
    scrypt::control::set_rng(None);
    let json = match json {
        Ok(Some(j)) => j,
        Ok(None) => {
            obs.label("no probe");
            return Ok(());
        }
        Err(e) => return fail("keystore-panic", format!("writing a keystore panics: {e}")),
    };
    let v: Value = match serde_json::from_str(&json) {
        Ok(v) => v,
        Err(e) => return fail("keystore-json", format!("{e}: {json}")),
    };
    if v.pointer("/crypto/kdf/params/n").and_then(|n| n.as_u64()).is_some_and(|n| n > 1 << 10) {
        SLOW.fetch_add(1, Ordering::Relaxed);
    }
    check_file(&v, &pw, &key, &path)?;
    // another password
    let mut other: Vec<char> = pw.chars().collect();
    match src.below(5) {
        0 => other.push((0x20 + src.below(95) as u8) as char),
        1 => drop(other.pop()),
        2 => other.truncate(8),
        3 => other.insert(0, *src.pick(ODD)),
        _ => {
            if !other.is_empty() {
                let i = src.idx(other.len());
                other[i] = *src.pick(ODD);
            }
        }
    }
    let other: String = other.into_iter().collect();
    let opens = open(&v, &other)?.is_some();
    // HMAC pads keys of up to a block with zeros, no control character survives, so no two agree
    ensure!(opens == (normal(&other) == normal(&pw)), "keystore-other", "password {other:?} on a keystore of {pw:?}: opens={opens}");
    Ok(())
}
static SEEN: Mutex<Option<HashSet<String>>> = Mutex::new(None);
fn check_list(list: &Value, keys: &[([u8; 32], String)]) -> CaseResult {
    ensure_eq!(list.as_array().map(|a| a.len()), Some(keys.len()), "keystore-count", "keystores");
    for (e, (key, path)) in list.as_array().unwrap().iter().zip(keys) {
        let inner = e["voting_keystore"].as_str().unwrap_or("");
        let v: Value = match serde_json::from_str(inner) {
            Ok(v) => v,
            Err(x) => return fail("keystore-json", format!("{x}: {inner}")),
        };
        let pw = e["voting_keystore_password"].as_str().unwrap_or("");
        ensure!(pw.len() >= 32, "keystore-password", "generated password {pw:?}");
        check_file(&v, pw, key, path)?;
        let mut seen = SEEN.lock().unwrap();
        let seen = seen.get_or_insert_with(HashSet::new);
        for (what, x) in [
            ("password", pw),
            ("salt", v.pointer("/crypto/kdf/params/salt").and_then(|x| x.as_str()).unwrap()),
            ("IV", v.pointer("/crypto/cipher/params/iv").and_then(|x| x.as_str()).unwrap()),
            ("uuid", v["uuid"].as_str().unwrap()),
        ] {
            ensure!(seen.insert(x.to_string()), "keystore-fresh", "{what} {x} occurs twice");
        }
    }
    Ok(())
}
fn files(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let n = src.usize(0, 3);
    let (pairs, keys): (Vec<_>, Vec<_>) = (0..n)
        .map(|_| {
            let (p, b) = pair(src);
            let path = p.path.clone();
            (p, (b, path))
        })
        .unzip();
    obs.hit(&keys.iter().flat_map(|k| k.0).collect::<Vec<_>>());
    obs.sample(|| format!("keystores with generated passwords of {n} keys"));
    let list = attempt("keystores", || serde_json::to_value(keystores::generate(pairs)).unwrap())?;
    check_list(&list, &keys)
}
fn tool(args: &[&str]) -> (bool, String) {
    let o = std::process::Command::new(std::env::current_exe().unwrap())
        .args(args)
        .env("VERIF_EC_TOOL", "1")
        .stdin(std::process::Stdio::null())
        .output()
        .unwrap();
    (o.status.success(), String::from_utf8_lossy(&o.stdout).into_owned())
}
fn command(src: &mut Src, obs: &mut Obs) -> CaseResult {
    match src.weighted(&[3, 2, 1]) {
        0 => {
            let n = 4 * src.usize(4, 8);
            let phrase = words(&src.bytes(n)).join(" ");
            let (start, n) = (src.below(3000) as u32, src.below(3) as u32);
            obs.label("generate-lighthouse-keystores");
            obs.hit(phrase.as_bytes());
            obs.sample(|| format!("ec validator generate-lighthouse-keystores {phrase:?} {start} {}", start + n));
            let a = ["validator", "generate-lighthouse-keystores", &phrase, &start.to_string(), &(start + n).to_string()];
            let (ok, out) = tool(&a);
            ensure!(ok, "tool-keystores", "{a:?} fails");
            let seed = pbkdf2_512(phrase.as_bytes(), b"mnemonic");
            let keys: Vec<_> = (start..start + n)
                .map(|i| (derive(&seed, &[12381, 3600, i, 0, 0]).to_be(), format!("m/12381/3600/{i}/0/0")))
                .collect();
            let v = serde_json::from_str(&out).unwrap_or_default();
            check_list(&v, &keys)?;
            let bad = phrase.replacen(' ', " abandon ", 1);
            let (ok, _) = tool(&["validator", "generate-lighthouse-keystores", &bad, "0", "1"]);
            ensure!(!ok, "tool-phrase", "a phrase with a word too many is taken");
        }
        1 => {
            obs.label("mnemonic");
            let (ok, out) = tool(&["validator", "mnemonic"]);
            let w: Vec<&str> = out.split_whitespace().collect();
            obs.hit(out.as_bytes());
            let list = Language::English.word_list();
            let bits: Vec<u8> = w
                .iter()
                .flat_map(|x| list.iter().position(|y| y == x).into_iter().flat_map(|i| (0..11).map(move |k| (i >> (10 - k) & 1) as u8)))
                .collect();
            ensure!(ok && w.len() == 24 && bits.len() == 264, "tool-mnemonic", "ec validator mnemonic prints {} words", w.len());
            let e: Vec<u8> = bits[..256].chunks(8).map(|c| c.iter().fold(0, |a, b| 2 * a + b)).collect();
            ensure!(words(&e) == w, "tool-mnemonic", "ec validator mnemonic prints no mnemonic");
            let mut seen = SEEN.lock().unwrap();
            ensure!(seen.get_or_insert_with(HashSet::new).insert(out.clone()), "tool-mnemonic", "a mnemonic occurs twice");
        }
        _ => {
            obs.label("bls");
            let (ok, out) = tool(&["bls"]);
            obs.hit(out.as_bytes());
            let h = |l: &str| -> Vec<u8> {
                let s = out.lines().find_map(|x| x.strip_prefix(l)).unwrap_or("").trim().trim_matches('"').trim_start_matches("0x");
                hex::decode(s).unwrap_or_default()
            };
            let (s, p) = (h("secret key:"), h("public key:"));
            let want = SecretKey::try_from(&s[..]).map(|s| (s.public_key().as_ref() as &[u8]).to_vec());
            ensure!(ok && want.as_ref().ok() == Some(&p), "tool-bls", "ec bls prints a secret of {} bytes and a public key that differ", s.len());
        }
    }
    Ok(())
}
fn main() {
    if std::env::var("VERIF_EC_TOOL").is_ok() {
        if ecbin::main().is_err() {
            std::process::exit(1);
        }
        return;
    }
    pbt::main(Check {
        property: "C30",
        rule: "A case is a phrase (of any valid length, damaged or not) with a passphrase, a seed with a range of indices, a key with a password (all of Unicode, control characters, compatibility forms) and an initial vector, keystores with generated passwords, or a run of the command line. It counts once per distinct input.",
        assumptions: &["scrypt, AES and HKDF are stand-ins checked against their published vectors", "phrases with other white space may be refused"],
        subs: vec![
            Sub { name: "vectors", quick: 1, thorough: 1, f: vectors },
            Sub { name: "phrases", quick: 10000, thorough: 300000, f: phrases },
            Sub { name: "keys", quick: 5000, thorough: 100000, f: derived },
            Sub { name: "keystore", quick: 60000, thorough: 2000000, f: keystore },
            Sub { name: "files", quick: 6, thorough: 100, f: files },
            Sub { name: "command", quick: 12, thorough: 100, f: command },
        ],
    })
}

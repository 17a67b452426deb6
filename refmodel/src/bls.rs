//! The group model used by the blst stand-in: a point is its discrete logarithm.
use crate::types::*;
use std::{collections::HashMap, sync::OnceLock};
use vfr::{decode_point, encode_point, Fr};
pub const DST: &[u8] = b"BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_";
pub fn h(msg: &[u8]) -> Fr {
    Fr::hash(&[b"hash-to-curve", DST, b"", msg])
}
/// the secret key of test validator i
pub fn sk(i: u64) -> Fr {
    Fr::from_u64(i + 1)
}
pub fn pk_of(s: &Fr) -> B48 {
    encode_point::<48>(b"pk", s)
}
/// keys of the first test validators, and the way back
fn table() -> &'static (Vec<B48>, HashMap<B48, u64>) {
    static T: OnceLock<(Vec<B48>, HashMap<B48, u64>)> = OnceLock::new();
    T.get_or_init(|| {
        let v: Vec<B48> = (0..10240).map(|i| pk_of(&sk(i))).collect();
        let m = v.iter().enumerate().map(|(i, p)| (*p, i as u64)).collect();
        (v, m)
    })
}
pub fn pk(i: u64) -> B48 {
    match table().0.get(i as usize) {
        Some(p) => *p,
        None => pk_of(&sk(i)),
    }
}
/// index of the secret key behind a public key of the test validators (0 when there is none)
pub fn index_of(p: &B48) -> u64 {
    table().1.get(p).copied().unwrap_or(0)
}
pub fn sign_with(s: &Fr, msg: &[u8]) -> B96 {
    encode_point::<96>(b"sig", &s.mul(&h(msg)))
}
pub fn sign(i: u64, msg: &[u8]) -> B96 {
    sign_with(&sk(i), msg)
}
/// aggregate signature of several keys on one message
pub fn sign_all(keys: &[u64], msg: &[u8]) -> B96 {
    let mut s = Fr::ZERO;
    for k in keys {
        s = s.add(&sk(*k));
    }
    sign_with(&s, msg)
}
pub fn pk_point(b: &B48) -> Option<Fr> {
    match decode_point::<48>(b"pk", b) {
        Ok(x) if !x.is_zero() => Some(x),
        _ => None,
    }
}
pub fn sig_point(b: &B96) -> Option<Fr> {
    decode_point::<96>(b"sig", b).ok()
}
pub fn verify(p: &B48, msg: &[u8], sig: &B96) -> bool {
    match (pk_point(p), sig_point(sig)) {
        (Some(p), Some(s)) => !s.is_zero() && s == p.mul(&h(msg)) || (s.is_zero() && p.mul(&h(msg)).is_zero()),
        _ => false,
    }
}
pub fn agg_pk(ps: &[B48]) -> Option<B48> {
    if ps.is_empty() {
        return None;
    }
    let mut s = Fr::ZERO;
    for p in ps {
        s = s.add(&pk_point(p)?);
    }
    Some(pk_of(&s))
}
pub fn fast_aggregate_verify(ps: &[B48], msg: &[u8], sig: &B96) -> bool {
    if ps.is_empty() {
        return false;
    }
    let mut s = Fr::ZERO;
    for p in ps {
        match pk_point(p) {
            Some(x) => s = s.add(&x),
            None => return false,
        }
    }
    match sig_point(sig) {
        Some(g) => !s.is_zero() && g == s.mul(&h(msg)),
        None => false,
    }
}
pub const INF_SIG: B96 = {
    let mut a = [0u8; 96];
    a[0] = 0xc0;
    a
};
/// eth_fast_aggregate_verify
pub fn eth_fast_aggregate_verify(ps: &[B48], msg: &[u8], sig: &B96) -> bool {
    if ps.is_empty() && *sig == INF_SIG {
        return true;
    }
    fast_aggregate_verify(ps, msg, sig)
}

//! The scalar field of BLS12-381 and a model of its groups "in the exponent": a group element is
//! represented by its discrete logarithm, in an encoding of the genuine length with the genuine
//! flag bits and a checksum, so that arbitrary bytes are not valid points.
use sha2::{Digest, Sha256};

/// r, little-endian limbs
pub const R: [u64; 4] =
    [0xffffffff00000001, 0x53bda402fffe5bfe, 0x3339d80809a1d805, 0x73eda753299d7d48];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Hash, PartialOrd, Ord)]
pub struct Fr([u64; 4]);

fn geq(a: &[u64; 4], b: &[u64; 4]) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
fn sub4(a: &[u64; 4], b: &[u64; 4]) -> ([u64; 4], bool) {
    let mut o = [0; 4];
    let mut bo = false;
    for i in 0..4 {
        let (v, b1) = a[i].overflowing_sub(b[i]);
        let (v, b2) = v.overflowing_sub(bo as u64);
        o[i] = v;
        bo = b1 | b2;
    }
    (o, bo)
}
fn add4(a: &[u64; 4], b: &[u64; 4]) -> ([u64; 4], bool) {
    let mut o = [0; 4];
    let mut c = 0u128;
    for i in 0..4 {
        let v = a[i] as u128 + b[i] as u128 + c;
        o[i] = v as u64;
        c = v >> 64;
    }
    (o, c != 0)
}
const fn inv64() -> u64 {
    // -R^-1 mod 2^64
    let mut x = 1u64;
    let mut i = 0;
    while i < 6 {
        x = x.wrapping_mul(2u64.wrapping_sub(R[0].wrapping_mul(x)));
        i += 1;
    }
    x.wrapping_neg()
}
fn mont(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    const N0: u64 = inv64();
    let mut t = [0u64; 6];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 {
            let v = t[j] as u128 + a[j] as u128 * b[i] as u128 + c;
            t[j] = v as u64;
            c = v >> 64;
        }
        let v = t[4] as u128 + c;
        t[4] = v as u64;
        t[5] = (v >> 64) as u64;
        let m = t[0].wrapping_mul(N0);
        let mut c = (t[0] as u128 + m as u128 * R[0] as u128) >> 64;
        for j in 1..4 {
            let v = t[j] as u128 + m as u128 * R[j] as u128 + c;
            t[j - 1] = v as u64;
            c = v >> 64;
        }
        let v = t[4] as u128 + c;
        t[3] = v as u64;
        t[4] = t[5] + (v >> 64) as u64;
    }
    let o = [t[0], t[1], t[2], t[3]];
    if t[4] != 0 || geq(&o, &R) {
        sub4(&o, &R).0
    } else {
        o
    }
}
fn r2() -> &'static [u64; 4] {
    static C: std::sync::OnceLock<[u64; 4]> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let mut x = [1u64, 0, 0, 0];
        for _ in 0..512 {
            let (s, o) = add4(&x, &x);
            x = if o || geq(&s, &R) { sub4(&s, &R).0 } else { s };
        }
        x
    })
}

impl Fr {
    pub const ZERO: Fr = Fr([0; 4]);
    pub const ONE: Fr = Fr([1, 0, 0, 0]);
    pub fn from_u64(v: u64) -> Fr {
        Fr([v, 0, 0, 0])
    }
    pub fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
    /// canonical big-endian encoding only
    pub fn from_be(b: &[u8]) -> Option<Fr> {
        if b.len() != 32 {
            return None;
        }
        let mut l = [0u64; 4];
        for i in 0..4 {
            l[3 - i] = u64::from_be_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
        }
        (!geq(&l, &R)).then_some(Fr(l))
    }
    pub fn to_be(&self) -> [u8; 32] {
        let mut o = [0u8; 32];
        for i in 0..4 {
            o[8 * i..8 * i + 8].copy_from_slice(&self.0[3 - i].to_be_bytes());
        }
        o
    }
    /// any number of big-endian bytes, reduced modulo r
    pub fn reduce_be(b: &[u8]) -> Fr {
        let base = Fr::from_u64(256);
        b.iter().fold(Fr::ZERO, |a, x| a.mul(&base).add(&Fr::from_u64(*x as u64)))
    }
    pub fn add(&self, o: &Fr) -> Fr {
        let (s, c) = add4(&self.0, &o.0);
        Fr(if c || geq(&s, &R) { sub4(&s, &R).0 } else { s })
    }
    pub fn sub(&self, o: &Fr) -> Fr {
        let (s, b) = sub4(&self.0, &o.0);
        Fr(if b { add4(&s, &R).0 } else { s })
    }
    pub fn mul(&self, o: &Fr) -> Fr {
        Fr(mont(&mont(&self.0, r2()), &o.0))
    }
    pub fn pow(&self, e: [u64; 4]) -> Fr {
        let mut acc = Fr::ONE;
        for i in (0..256).rev() {
            acc = acc.mul(&acc);
            if e[i / 64] >> (i % 64) & 1 == 1 {
                acc = acc.mul(self);
            }
        }
        acc
    }
    pub fn inv(&self) -> Fr {
        let mut e = R;
        e[0] -= 2;
        self.pow(e)
    }
    pub fn hash(parts: &[&[u8]]) -> Fr {
        let mut h = Sha256::new();
        for p in parts {
            h.update((p.len() as u64).to_le_bytes());
            h.update(p);
        }
        Fr::reduce_be(&h.finalize())
    }
    /// primitive `n`-th root of unity, `n` a power of two
    pub fn root_of_unity(n: u64) -> Fr {
        // (r - 1) / n
        let mut e = R;
        e[0] -= 1;
        let s = n.trailing_zeros() as usize;
        let mut out = [0u64; 4];
        for (i, o) in out.iter_mut().enumerate() {
            *o = e[i] >> s | if s > 0 && i + 1 < 4 { e[i + 1] << (64 - s) } else { 0 };
        }
        Fr::from_u64(7).pow(out)
    }
}

/// encodes a group element by its discrete logarithm into `N` bytes (48 for G1, 96 for G2)
pub fn encode_point<const N: usize>(tag: &[u8], x: &Fr) -> [u8; N] {
    let mut o = [0u8; N];
    if x.is_zero() {
        o[0] = 0xc0;
        return o;
    }
    let s = x.to_be();
    o[1..33].copy_from_slice(&s);
    let mut i = 33;
    let mut ctr = 0u8;
    let mut sign = 0;
    while i < N {
        let mut h = Sha256::new();
        h.update(tag);
        h.update([ctr]);
        h.update(s);
        let d = h.finalize();
        let n = (N - i).min(32);
        o[i..i + n].copy_from_slice(&d[..n]);
        sign = d[31] & 1;
        i += n;
        ctr += 1;
    }
    o[0] = 0x80 | sign << 5;
    o
}

pub enum PointError {
    BadEncoding,
    NotOnCurve,
}
pub fn decode_point<const N: usize>(tag: &[u8], b: &[u8]) -> Result<Fr, PointError> {
    if b.len() != N || b[0] & 0x80 == 0 {
        return Err(PointError::BadEncoding);
    }
    if b[0] & 0x40 != 0 {
        return if b[0] == 0xc0 && b[1..].iter().all(|x| *x == 0) {
            Ok(Fr::ZERO)
        } else {
            Err(PointError::BadEncoding)
        };
    }
    let x = Fr::from_be(&b[1..33]).ok_or(PointError::NotOnCurve)?;
    if x.is_zero() || encode_point::<N>(tag, &x) != *b {
        return Err(PointError::NotOnCurve);
    }
    Ok(x)
}

/// a point of the curve that is not in the prime-order group: the group element `x` plus a torsion part
pub fn encode_off_group<const N: usize>(tag: &[u8], x: &Fr) -> [u8; N] {
    encode_point::<N>(&[tag, b"/torsion"].concat(), x)
}
/// as a decompression without subgroup check: the element, and whether it has a torsion part
pub fn decode_any<const N: usize>(tag: &[u8], b: &[u8]) -> Result<(Fr, bool), PointError> {
    match decode_point::<N>(tag, b) {
        Ok(x) => Ok((x, false)),
        Err(PointError::NotOnCurve) => decode_point::<N>(&[tag, b"/torsion"].concat(), b).map(|x| (x, true)),
        Err(e) => Err(e),
    }
}
